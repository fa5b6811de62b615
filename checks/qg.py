"""Shared set-up and specification of the 3-D analysis (used by C08, C09, C13-C22)."""
import contextlib
import math
import numpy as np
import scipy.interpolate

PAR = dict(scale_height=1.3, cp=3.4, dry_gas_constant=1.1, omega=0.8, planet_radius=1.6)
DZ = 0.5
P0 = 1000.0


def lats(n, poles=True):
    if n % 2 or poles:
        return np.linspace(-90.0, 90.0, n)
    d = 180.0 / n
    return -90 + d / 2 + d * np.arange(n)


def analysis_lats(n):
    return np.linspace(-90.0, 90.0, n if n % 2 else n + 1)


def heights(h, nlev, kmax, evenly):
    if evenly:
        return DZ * np.arange(kmax)
    z = np.cumsum(h.generic("z%d" % nlev, (nlev,), 0.5, 1.5))
    z = (z - z[0]) / (z[-1] - z[0]) * ((kmax - 1) * DZ + 0.13 + 0.06) - 0.06   # lowest level a little below z = 0
    if h.cfg.get("low"):
        z = z + 0.21                                                            # ... or above it
        z[-1] += 0.1
    return z


def fields(h, shape, z, sym="uvt", amp=0.2, tamp=0.02, cells=None):
    """u, v, T: generic base values plus symbolic deviations; T so that static stability stays near 1"""
    r = {}
    kap = PAR["dry_gas_constant"] / PAR["cp"]
    for n in "uvt":
        a = h.generic(n, shape, -0.6, 0.6) if n != "t" else h.generic(n, shape, -0.03, 0.03)
        if n in h.cfg.get("intwind", ""):
            r[n] = h.lay(np.round(a * 4).astype(int))
            continue
        o = a.astype(object)
        am = tamp if n == "t" else amp
        if n in sym:
            for ix in np.ndindex(*shape):
                if cells is None or cells(n, ix):
                    o[ix] = o[ix] + h.num("%s[%d,%d,%d]" % ((n,) + ix), -am, am)
        if n == "t":
            for ix in np.ndindex(*shape):
                zz = z[ix[0]]
                o[ix] = (3.0 + zz + 0.07 * zz * zz + o[ix]) * math.exp(-kap * zz / PAR["scale_height"])
        r[n] = h.mk(o)
    return r["u"], r["v"], r["t"]


def make(h, cls, nlat, nlon, kmax, nlev=None, evenly=True, nh=False, jb=0, sym="uvt", poles=True, u=None, cells=None, amp=0.2, tamp=0.02, **kw):
    """(object, dict of what went in)"""
    z = heights(h, nlev or kmax, kmax, evenly)
    y = lats(nlat, poles)
    x = np.arange(nlon) * 360.0 / nlon
    p = P0 * np.exp(-z / PAR["scale_height"])
    if h.cfg.get("icoord"):
        x, y = [np.round(w).astype(int) if np.allclose(w, np.round(w)) else w for w in (x, y)]
        if not evenly:
            p = np.round(p).astype(int)
            z = -PAR["scale_height"] * np.log(p / P0)
    shape = (len(z), nlat, nlon)
    uvt = fields(h, shape, z, sym, amp, tamp, cells) if u is None else u
    k = dict(PAR)
    k.update(kw)
    k["northern_hemisphere_results_only"] = bool(nh)
    k["data_on_evenly_spaced_pseudoheight_grid"] = bool(evenly)
    if not evenly:
        k.update(kmax=kmax, dz=DZ)
    if cls == "NHN22":
        k["eq_boundary_index"] = jb
    o = getattr(h.pkg.oopinterface, "QGField" + cls)(x, y, p, uvt[0], uvt[1], uvt[2], **k)
    d = dict(x=x, y=y, p=p, zin=z, u=uvt[0], v=uvt[1], t=uvt[2], cls=cls, nlat=nlat, nlon=nlon, K=kmax, jb=jb if cls == "NHN22" else 0,
             nh=nh, evenly=evenly, z=DZ * np.arange(kmax), ya=analysis_lats(nlat), kw=k)
    d["J"] = len(d["ya"])
    d["nd"] = d["J"] // 2 + 1
    return o, d


# ------------------------------------------------------------------ specification
def lin(xs, ys, axis, xn):
    """piecewise linear interpolation (end segments extended) of an object/float array along an axis"""
    ys = np.moveaxis(np.asarray(ys, dtype=object), axis, 0)
    o = np.sort(np.asarray(xs, dtype=float))
    idx = np.argsort(np.asarray(xs, dtype=float))
    out = np.empty((len(xn),) + ys.shape[1:], dtype=object)
    for n, t in enumerate(xn):
        k = 1
        while k < len(o) - 1 and o[k] < t:
            k += 1
        w = (t - o[k - 1]) / (o[k] - o[k - 1])
        for ix in np.ndindex(*ys.shape[1:]):
            a, b = ys[(idx[k - 1],) + ix], ys[(idx[k],) + ix]
            out[(n,) + ix] = a + (b - a) * w if w not in (0.0, 1.0) else (a if w == 0.0 else b)
    return np.moveaxis(out, 0, axis)


def spline(h, x, y, xn, der=0):
    if h.sym:
        from fv import stubs, symnp
        s = stubs.UnivariateSpline(np.asarray(x), symnp.mkarray(list(y)))
        s = s.derivative() if der else s
        return np.asarray(s(np.asarray(xn, dtype=float).astype(object)), dtype=object)
    s = scipy.interpolate.UnivariateSpline(np.asarray(x), np.array(y, dtype=float))
    s = s.derivative() if der else s
    return np.asarray(s(xn), dtype=object)


def theta_in(d):
    kap = PAR["dry_gas_constant"] / PAR["cp"]
    t = np.asarray(d["t"], dtype=object)
    r = np.empty(t.shape, dtype=object)
    for k in range(t.shape[0]):
        f = math.exp(kap * d["zin"][k] / PAR["scale_height"])
        for ix in np.ndindex(*t.shape[1:]):
            r[(k,) + ix] = t[(k,) + ix] * f
    return r


def grids(h, d):
    """u, v, theta on the analysis grid and the hemispheric reference profiles"""
    u, v, th = np.asarray(d["u"], dtype=object), np.asarray(d["v"], dtype=object), theta_in(d)
    if d["nlat"] % 2 == 0:
        u, v, th = [lin(d["y"], a, 1, d["ya"]) for a in (u, v, th)]
    n = d["nd"] - d["jb"]
    c = [math.cos(math.radians(y)) for y in d["ya"]]
    J, I = d["J"], d["nlon"]
    prof = {}
    for hem, rows in (("s", range(n)), ("n", range(J - n, J))):
        w = sum(c[j] for j in rows)
        m = []
        for k in range(th.shape[0]):
            s = 0.0
            for j in rows:
                r = 0.0
                for i in range(I):
                    r = r + th[k, j, i]
                s = s + r * (c[j] / I)
            m.append(s / w)
        prof[hem] = m
    g = {}
    for hem in "sn":
        g["t0" + hem] = spline(h, d["zin"], prof[hem], d["z"])
        g["st" + hem] = spline(h, d["zin"], prof[hem], d["z"], 1)
    if d["evenly"]:
        g["u"], g["v"], g["th"] = u, v, th
    else:
        g["u"], g["v"], g["th"] = [lin(d["zin"], a, 0, d["z"]) for a in (u, v, th)]
    if d["cls"] == "NH18":
        for q in ("t0", "st"):
            m = [(a + b) * 0.5 for a, b in zip(g[q + "s"], g[q + "n"])]
            g[q + "s"] = g[q + "n"] = np.array(m, dtype=object)
    return g


def avort(d, u, v):
    K, J, I = u.shape
    a, om = PAR["planet_radius"], PAR["omega"]
    dp, dl = math.pi / (J - 1), 2 * math.pi / I
    phi = [-math.pi / 2 + dp * j for j in range(J)]
    r = np.empty((K, J, I), dtype=object)
    for k in range(K):
        for j in range(1, J - 1):
            c = math.cos(phi[j])
            for i in range(I):
                r[k, j, i] = (2 * om * math.sin(phi[j]) + (v[k, j, (i + 1) % I] - v[k, j, (i - 1) % I]) / (2 * a * c * dl)
                              - (u[k, j + 1, i] * math.cos(phi[j + 1]) - u[k, j - 1, i] * math.cos(phi[j - 1])) / (2 * a * c * dp))
        for pole, row in ((0, 1), (J - 1, J - 2)):
            m = 0.0
            for i in range(I):
                m = m + r[k, row, i] / I
            for i in range(I):
                r[k, pole, i] = m
    return r


def qgpv(d, g):
    """(pv, absolute vorticity); pv rows of the lowest and highest level are zero"""
    av = avort(d, g["u"], g["v"])
    K, J, I = av.shape
    H = PAR["scale_height"]
    z = d["z"]
    pv = np.empty((K, J, I), dtype=object)
    pv.fill(0.0)
    for k in range(1, K - 1):
        for j in range(J):
            hem = "s" if j < J // 2 else "n"
            f = 2 * PAR["omega"] * math.sin(math.radians(d["ya"][j])) if j != J // 2 else 0.0
            if d["cls"] == "NH18":
                f = 0.0
                for i in range(I):
                    f = f + av[k, j, i] / I
            for i in range(I):
                up = (g["th"][k + 1, j, i] - g["t0" + hem][k + 1]) / g["st" + hem][k + 1] * math.exp(-z[k + 1] / H)
                dn = (g["th"][k - 1, j, i] - g["t0" + hem][k - 1]) / g["st" + hem][k - 1] * math.exp(-z[k - 1] / H)
                pv[k, j, i] = av[k, j, i] + f * (math.exp(z[k] / H) / (z[k + 1] - z[k - 1])) * (up - dn)
    return pv, av


def back(d, a, axis):
    """analysis-grid rows -> rows of the output latitudes (all, or the northern ones when a has only those)"""
    a = np.asarray(a, dtype=object)
    if d["nlat"] % 2:
        return a
    ya, y = d["ya"], d["y"]
    if a.shape[axis] != d["J"]:
        ya, y = ya[-d["nd"]:], y[-(d["nlat"] // 2):]
    return lin(ya, a, axis, y)


def stub_ranges():
    from fv import stubs
    stubs.SPLINE_RANGE[0] = lambda z: (2.85 + z + 0.07 * z * z, 3.15 + z + 0.07 * z * z)
    stubs.SPLINE_RANGE[1] = (0.5, 2.0)


ASSUME = ["static stability and reference temperature profiles (values of SciPy's smoothing spline, an uninterpreted function of its data here) lie in (0.5, 2) and within 0.15 of 3 + z + 0.07 z^2 for the analysed inputs"]


# ------------------------------------------------------------------ kernels replaced by their (symbolic) results
@contextlib.contextmanager
def replaced(h, **subst):
    """every module-level binding of the named kernels replaced"""
    undo = []
    for name, f in subst.items():
        real = getattr(h.pkg.oopinterface, name)
        for m in h.pkg.mods.values():
            for k, v in list(m.__dict__.items()):
                if v is real:
                    undo.append((m, k, v))
                    setattr(m, k, f)
    try:
        yield
    finally:
        for m, k, v in undo:
            setattr(m, k, v)


def _zero(x):
    from fv import sym, solve
    x = sym.lift(x)
    return solve.magnitude(x) < 1e-9


def plug_values(h, d, amp=1.0, hems="ns"):
    """symbolic PV, absolute vorticity and reference states of both hemispheres (hemisphere rows counted from the
    equator; the reference PV is the one divided by sine of latitude the kernels return)"""
    J, I, K, nd = d["J"], d["nlon"], d["K"], d["nd"]
    jd = nd - d["jb"]
    r = {"pv": h.arr("pv", (I, J, K), -amp, amp), "avort": h.arr("avort", (I, J, K), -amp, amp)}
    for hem in hems:
        r["q" + hem] = h.arr("q" + hem, (nd, K), -amp, amp)
        r["u" + hem] = h.arr("ur" + hem, (jd, K), -amp, amp)
        r["t" + hem] = h.arr("tr" + hem, (jd, K), -0.2, 0.2, f=lambda ix, x: x + 3.0 + DZ * ix[1] + 0.07 * (DZ * ix[1]) ** 2)
    return r


@contextlib.contextmanager
def plugged(h, d, P, iters=None):
    """the PV kernels and the reference-state kernels return the given values"""
    K, nd = d["K"], d["nd"]
    jd = nd - d["jb"]

    def hem_of(pv):
        pv = np.asarray(pv, dtype=object)
        p = np.asarray(P["pv"], dtype=object)
        if all(_zero(a - b) for a, b in zip(pv[0, :, 1], p[0, :, 1])):
            return "n"
        if all(_zero(a + b) for a, b in zip(pv[0, ::-1, 1], p[0, :, 1])):
            return "s"
        raise AssertionError("reference states of neither hemisphere requested")

    def kq(*a, **k):
        return P["pv"].copy(), P["avort"].copy()

    def refs(*a, **k):
        e = hem_of(k["pv"] if "pv" in k else a[0])
        return P["q" + e].copy(), P["u" + e].copy(), P["t" + e].copy(), (iters or {}).get(e, 1)

    def first(*a, **k):
        e = hem_of(k["pv"] if "pv" in k else a[0])
        z = np.zeros((nd, K))
        return P["q" + e].copy(), z.copy(), z.copy(), z.copy(), z.copy(), np.zeros((jd - 2, K - 1)), np.zeros((jd - 2, jd - 2, K - 1))

    def before(*a, **k):
        n = jd - 2
        return np.eye(n), np.zeros((n, n)), np.zeros((n, n)), np.zeros(n)

    def after(*a, **k):
        return None

    def sweep(*a, **k):
        q = np.asarray(k["qref_over_cor"], dtype=object)
        for e in "ns":
            if "q" + e in P and all(_zero(x - y) for x, y in zip(q[:, 1], np.asarray(P["q" + e], dtype=object)[:, 1])):
                return P["t" + e].copy(), P["q" + e].copy(), P["u" + e].copy()
        raise AssertionError("reference states of neither hemisphere requested")
    with replaced(h, compute_qgpv=kq, compute_qgpv_direct_inv=kq, compute_reference_states=refs, compute_qref_and_fawa_first=first,
                  matrix_b4_inversion=before, matrix_after_inversion=after, upward_sweep=sweep):
        yield


def ref_rows(d, P):
    """reference states by analysis row (dictionary keys: row): Q(k,row), U, T; U, T zero inside the boundary.
    In a global run the equator row holds the southern values."""
    J, K, nd, jb = d["J"], d["K"], d["nd"], d["jb"]
    eq = nd - 1
    om = PAR["omega"]
    Q, U, T = [np.zeros((K, J), dtype=object) for _ in range(3)]
    for hem, s in (("n", 1), ("s", -1)):
        if hem == "s" and d["nh"]:
            continue
        for m in range(nd):
            r = eq + s * m
            for k in range(K):
                f = (2 * om if d["cls"] == "NH18" else 1.0) * math.sin(math.radians(d["ya"][r]))
                Q[k, r] = P["q" + hem][m, k] * f
                if m >= jb:
                    U[k, r] = P["u" + hem][m - jb, k]
                    T[k, r] = P["t" + hem][m - jb, k]
    return Q, U, T


# ------------------------------------------------------------------ layerwise wave activity and fluxes
def fluxes(h, d, g, pv, Q, U, T, nc=None, rows=None):
    """dictionary of [level, row, longitude] arrays by definition (zero outside the analysis rows and levels)"""
    K, J, I = d["K"], d["J"], d["nlon"]
    nd, jb = d["nd"], d["jb"]
    eq = nd - 1
    a, om, H = PAR["planet_radius"], PAR["omega"], PAR["scale_height"]
    R, cp = PAR["dry_gas_constant"], PAR["cp"]
    dp = math.pi / (J - 1)
    phi = [-math.pi / 2 + dp * j for j in range(J)]
    cos = [math.cos(p) for p in phi]
    z = d["z"]
    pref = sum(math.exp(-DZ * k / H) * DZ for k in range(1, K - 1))
    u, v, th = g["u"], g["v"], g["th"]
    names = ["astar1", "astar2", "lwa", "ncforce", "ua1", "ua2", "ep1", "ep2", "ep3", "stretch_term"]
    o = {n: np.zeros((K, J, I), dtype=object) for n in names}
    o["ep4"] = np.zeros((J, I), dtype=object)
    pos = h.pos
    for hem, s in (("n", 1), ("s", -1)):
        if hem == "s" and d["nh"]:
            continue
        t0 = g["t0" + hem]
        R_ = [eq + s * m for m in range(nd)]
        for m in range(jb, nd - 1):
            if hem == "n" and m == 0 and not d["nh"]:
                continue                    # a global run reports the southern value on the equator
            r = R_[m]
            for k in range(1, K - 1):
                for i in range(I):
                    a1 = a2 = nc_ = f2 = 0.0
                    for mm in range(nd):
                        rr = R_[mm]
                        qe = (pv[k, rr, i] - Q[k, r]) * s
                        ue = u[k, rr, i] * cos[r] - U[k, r] * cos[rr]
                        if mm < m:
                            a1 = a1 + pos(qe) * (cos[rr] * a * dp)
                            f2 = f2 + pos(qe) * ue * (a * dp)
                            if nc is not None:
                                nc_ = nc_ + h.ite(qe > 0, nc[k, rr, i], 0.0) * (s * cos[rr] * a * dp)
                        else:
                            a2 = a2 + pos(-qe) * (cos[rr] * a * dp)
                            f2 = f2 + pos(-qe) * ue * (a * dp)
                            if nc is not None:
                                nc_ = nc_ - h.ite(qe > 0, 0.0, nc[k, rr, i]) * (s * cos[rr] * a * dp)
                    o["astar1"][k, r, i], o["astar2"][k, r, i], o["lwa"][k, r, i] = a1, a2, a1 + a2
                    o["ncforce"][k, r, i] = nc_
                    o["ua1"][k, r, i] = U[k, r] * (a1 + a2)
                    o["ua2"][k, r, i] = f2
                    e = u[k, r, i] - U[k, r]
                    te = th[k, r, i] - T[k, r]
                    o["ep1"][k, r, i] = (v[k, r, i] * v[k, r, i] * 0.5 - e * e * 0.5
                                         - te * te * (0.5 * (R / H) * math.exp(-R / cp * z[k] / H) * 2 * DZ) / (t0[k + 1] - t0[k - 1])) * cos[r]
                    north = r + 1 if abs(r + 1 - eq) >= jb and (r + 1 - eq) * s >= jb else r
                    south = r - 1 if (r - 1 - eq) * s >= jb else r
                    o["ep2"][k, r, i] = (u[k, north, i] - U[k, north]) * v[k, north, i] * cos[north] ** 2
                    o["ep3"][k, r, i] = (u[k, south, i] - U[k, south]) * v[k, south, i] * cos[south] ** 2
            for i in range(I):
                f = 2 * om * math.sin(phi[r])
                o["ep4"][r, i] = (v[1, r, i] * (th[1, r, i] - T[1, r]) / (t0[2] - t0[0]) * math.exp(-DZ / H)
                                  + v[0, r, i] * (th[0, r, i] - T[0, r]) * 0.5 / (t0[1] - t0[0])) * (f * cos[r] * DZ / pref)
        # stretching term
        st = g["st" + hem]
        for m in range(nd):
            r = R_[m]
            for i in range(I):
                x = []
                for k in range(K):
                    w = st[k] if m else (g["sts"][k] + g["stn"][k]) * 0.5
                    x.append(v[k, r, i] * (th[k, r, i] - T[k, r]) * (cos[r] * math.exp(-z[k] / H)) / w)
                for k in range(K):
                    lo, hi = max(k - 1, 0), min(k + 1, K - 1)
                    f = 2 * om * math.sin(phi[r]) if m else 0.0
                    o["stretch_term"][k, r, i] = (x[hi] - x[lo]) * (-f * math.exp(z[k] / H) / ((hi - lo) * DZ))
    return o, pref


def contours(h, x, J, I, n, nd, a, tie=0):
    """reference values by row from the equator and circulation inside each latitude, of the values x[i, j] of one level
    (analysed about the northern pole): n contour values equally spaced between the extremes, area of each bin (the
    topmost one, holding the maximum, not counted), piecewise linear in the enclosed area; the minimum where more than the
    counted area is enclosed. The minimum itself lies on a bin boundary: rounding puts it in the last bin or (tie=1) the
    one before."""
    dp, dl = math.pi / (J - 1), 2 * math.pi / I
    hi = lo = None
    for v in x.values():
        hi = v if hi is None or bool(v > hi) else hi
        lo = v if lo is None or bool(v < lo) else lo
    step = (hi - lo) * (1.0 / (n - 1))
    an, cn = [0.0] * n, [0.0] * n
    for (i, j), v in x.items():
        b = 0
        while b < n - 1 and not bool(hi - v < step * (b + 1)):
            b += 1
        if b == n - 1:
            b -= tie
        elif not h.sym and b == n - 2 and not tie and abs(v - lo) <= 1e-12 * abs(hi - lo):
            b += 1
        da = a * a * dp * dl * abs(math.cos(-0.5 * math.pi + dp * j))
        an[b] += da
        cn[b] = cn[b] + v * da
    aa, cc = [0.0], [0.0]
    for b in range(1, n):
        aa.append(aa[-1] + an[b])
        cc.append(cc[-1] + cn[b])
    q, c = [lo] * nd, [cc[n - 1]] * nd
    for m in range(nd - 1):
        al = 2 * math.pi * a * a * (1 - math.sin(dp * m))
        for b in range(n - 1):
            if aa[b] <= al < aa[b + 1]:
                w = (al - aa[b]) / (aa[b + 1] - aa[b])
                q[m] = (hi - step * b) * (1 - w) + (hi - step * (b + 1)) * w
                c[m] = cc[b] * (1 - w) + cc[b + 1] * w
    q[nd - 1] = hi
    return q, c
