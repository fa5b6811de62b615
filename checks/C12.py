"""The direct-inversion class run through compute_reference_states with symbolic reference PV, boundary circulation and
upper-level temperature (all kernels but the PV binning interpreted from gfortran's IR, LU factorisation of the concrete
matrices by LAPACK); the returned wind and temperature substituted into the discretised elliptic equation, its boundary
conditions, thermal-wind balance and the hemispheric mean."""
import math
import numpy as np
from checks import qg

BOUNDS = "analysis grids of 7-9 latitudes (11 thorough), 3 longitudes, 4-5 levels (6 thorough), boundary index 0-2, global and northern-only; reference PV, boundary circulation and temperature of the top condition symbolic, level spacing 0.5 or 0.1, winds and static stability generic concrete (LAPACK factorises concrete matrices); ordinary size: 21 latitudes, 9 levels, boundary index 4 (thorough 41, 14, 7)"
OUTSIDE = "symbolic static stability (the matrices to be factorised depend on it); larger grids"
KERNELS = ["compute_qgpv_direct_inv", "compute_qref_and_fawa_first", "matrix_b4_inversion", "matrix_after_inversion", "upward_sweep"]


def configs(tier):
    r = []
    for J, K, jb in [(7, 4, 0), (7, 5, 1), (9, 4, 0), (9, 5, 2), (21, 9, 4)] + ([(11, 6, 0), (11, 6, 1), (11, 5, 3), (9, 7, 1), (41, 14, 7)] if tier == "thorough" else []):
        for nh in (0, 1):
            for gen in ((0,) if tier == "quick" else (0, 1)):
                r.append(dict(name="NHN22_%dx3x%d_nh%d_jb%d_g%d" % (J, K, nh, jb, gen), J=J, K=K, nh=nh, jb=jb, gen=gen))
    for J, K, jb in [(7, 6, 0)] + ([(9, 6, 1)] if tier == "thorough" else []):
        r.append(dict(name="NHN22_%dx3x%d_nh0_jb%d_spacing0.1" % (J, K, jb), J=J, K=K, nh=0, jb=jb, gen=0, dz=0.1))
    return r


def run(h, c):
    qg.stub_ranges()
    qg.DZ = c.get("dz", 0.5)
    o, d = qg.make(h, "NHN22", c["J"], 3, c["K"], nh=c["nh"], jb=c["jb"], sym="", evenly="dz" not in c)
    K, J, nd, jb = d["K"], d["J"], d["nd"], d["jb"]
    S = {}
    real = h.pkg.oopinterface.compute_qref_and_fawa_first
    for e in "ns":
        S["q" + e] = h.arr("q" + e, (nd, K), -1, 1)
        S["c" + e] = h.arr("c" + e, (nd, K), -1, 1)
        S["t" + e] = h.arr("t" + e, (3, J, K), 2, 8)
    o.interpolate_fields(return_named_tuple=False)
    g = qg.grids(h, d)
    pv = np.asarray(o.qgpv, dtype=float) if not h.sym else np.array([[[float(x) for x in r] for r in p] for p in np.asarray(o.qgpv)])
    seen = []

    def first(*a, **k):
        p = np.asarray(k["pv"] if "pv" in k else a[0], dtype=float)
        e = "n" if abs(p[0, -1, 1] - pv[1, -1, 0]) + abs(p[1, -2, 1] - pv[1, -2, 1]) < 1e-9 else "s"
        seen.append(e)
        if "pt" in k:
            k["pt"] = S["t" + e]
        else:
            a = a[:3] + (S["t" + e],) + a[4:]
        q, ub, tb, fa, ck, tj, sj = real(*a, **k)
        return S["q" + e].copy(), ub, tb, fa, S["c" + e].copy(), tj, sj
    with qg.replaced(h, compute_qref_and_fawa_first=first):
        o.compute_reference_states(return_named_tuple=False)
    h.true("each hemisphere solved once", sorted(seen) == (["n"] if c["nh"] else ["n", "s"]))
    a, om, H, R, cp = [qg.PAR[x] for x in ("planet_radius", "omega", "scale_height", "dry_gas_constant", "cp")]
    kap = R / cp
    dz, dp = qg.DZ, math.pi / (J - 1)
    z = d["z"]
    U_, T_, Q_ = [np.asarray(x, dtype=object) for x in (o.uref, o.ptref, o.qref)]
    lo = nd - 1 if c["nh"] else 0
    for e, s in (("n", 1), ("s", -1)):
        if e == "s" and c["nh"]:
            continue
        st = [float(x) for x in g["st" + e]]
        t0 = [float(x) for x in g["t0" + e]]
        row = [nd - 1 + s * m - lo for m in range(nd)]
        q, ck = np.asarray(S["q" + e], dtype=object), np.asarray(S["c" + e], dtype=object)
        tb = np.asarray(S["t" + e], dtype=object)
        cos = [math.cos(dp * m) for m in range(nd)]
        sin = [math.sin(dp * m) for m in range(nd)]
        u = lambda m, k: U_[k, row[m]]
        U = lambda m, k: U_[k, row[m]] * cos[m] if m < nd - 1 else 0.0
        skip_eq = e == "n" and not c["nh"] and jb == 0     # the equator row of a global run is the southern one
        Ub = lambda k: ck[jb, k] / (2 * math.pi * a) - om * a * cos[jb] if k else 0.0
        W = lambda m, k: Ub(k) if m == jb else U(m, k)
        for k in range(K):
            if not skip_eq:
                h.eq("%s boundary wind[%d]" % (e, k), U(jb, k), Ub(k))
            h.eq("%s polar wind[%d]" % (e, k), u(nd - 1, k), u(nd - 2, k) * 2 - (u(nd - 3, k) if nd - 3 > jb or not skip_eq else Ub(k) / cos[jb]))
            for m in range(nd):
                f = s * sin[m]
                if m > jb:
                    h.eq("%s reference PV[%d,%d]" % (e, m, k), Q_[k, row[m]], q[m, k] * f)
        for m in range(jb + 1, nd - 1):
            h.eq("%s surface wind[%d]" % (e, m), U(m, 0), 0.0)
            dt = 0.0
            for i in range(3):
                dt = dt + (tb[i, nd - 1 + m + 1, K - 1] - tb[i, nd - 1 + m - 1, K - 1]) / 3
            top = dt * (-dz * R * cos[m] * math.exp(-kap * z[K - 2] / H) / (2 * dp * 2 * om * sin[m] * H * a))
            h.eq("%s top condition[%d]" % (e, m), U(m, K - 1) - U(m, K - 2), top)
            for k in range(1, K - 1):
                A = 1 / (math.sin(dp * (m + 0.5)) * math.cos(dp * (m + 0.5)))
                B = 1 / (math.sin(dp * (m - 0.5)) * math.cos(dp * (m - 0.5)))
                F = 4 * om * om * H * a * a * sin[m] * dp * dp / (dz * dz * R * cos[m]) * math.exp(z[k] / H)
                zp, zm = z[k] + dz / 2, z[k] - dz / 2
                C = F * math.exp((kap - 1) * zp / H) * 2 / (st[k] + st[k + 1])
                D = F * math.exp((kap - 1) * zm / H) * 2 / (st[k] + st[k - 1])
                lhs = (W(m + 1, k) - U(m, k)) * A + (W(m - 1, k) - U(m, k)) * B + (U(m, k + 1) - U(m, k)) * C + (U(m, k - 1) - U(m, k)) * D
                rhs = (q[m + 1, k] - q[m - 1, k]) * (-0.5 * a * dp)
                h.eq("%s elliptic equation[%d,%d]" % (e, m, k), lhs, rhs)
        # temperature
        T = lambda m, k: T_[k, row[m]]
        rows = [m for m in range(jb, nd)]
        if skip_eq:                    # the equator value is not reported; thermal wind and mean determine it
            Teq = {}
        for k in range(1, K - 1):
            w = sum(cos[m] for m in rows)
            ty = lambda m: (u(m, k + 1) - u(m, k - 1)) * (-2 * om * sin[m] * a * H * math.exp(kap * z[k] / H) / R / (2 * dz))
            vals = {m: T(m, k) for m in rows}
            if skip_eq:
                vals[jb] = vals[jb + 1]
            for m in range(jb + 1, nd - 1):
                h.eq("%s thermal wind[%d,%d]" % (e, m, k), vals[m + 1] - vals[m - 1], ty(m) * (2 * dp))
            h.eq("%s first rows[%d]" % (e, k), vals[jb + 1], vals[jb])
            mean = 0.0
            for m in rows:
                mean = mean + vals[m] * (cos[m] / w)
            h.eq("%s hemispheric mean temperature[%d]" % (e, k), mean, t0[k])
        for m in rows[1 if skip_eq else 0:]:
            h.eq("%s lowest temperature[%d]" % (e, m), T(m, 0), T(m, 1) - t0[1] + t0[0])
            h.eq("%s highest temperature[%d]" % (e, m), T(m, K - 1), T(m, K - 2) - t0[K - 2] + t0[K - 1])
