"""The over-relaxation class run through compute_reference_states: the relaxation kernel interpreted from gfortran's IR on
symbolic winds and temperatures and a symbolic tolerance, so that the sweep at which it stops is decided by the solver on
each path; iterates, stopping test, outputs and non-convergence reports against the stated scheme."""
import math
import numpy as np
from checks import qg

BOUNDS = "analysis grids of 5-9 latitudes (11 thorough), 3 longitudes, 4-6 levels, 2-5 sweeps allowed (7 thorough), tolerance symbolic in [1e-4, 30], zonal wind and temperature of each hemisphere symbolic; PV and static stability generic concrete or (few sweeps, fixed tolerance) PV symbolic near generic values; global and northern-only, error or warning on non-convergence; ordinary size: 17 latitudes, 9 levels (thorough 33, 12), one wind or temperature value in 40 symbolic"
OUTSIDE = "more sweeps; symbolic static stability; larger grids"
KERNELS = ["compute_reference_states"]
ORDER = ["pv", "uu", "pt", "stat"]


BINS = {5: 5, 7: 9, 9: 5, 11: 9, 17: 9, 33: 17}        # powers of two plus one: the minimum falls on its bin without rounding


def configs(tier):
    r = []
    g = [(5, 4, 4, "w"), (7, 4, 3, "w"), (7, 5, 2, "w"), (5, 5, 5, "e"), (9, 5, 3, "w"), (7, 4, 3, "e"), (9, 6, 2, "w")]
    if tier == "thorough":
        g += [(7, 5, 6, "w"), (9, 6, 4, "e"), (11, 5, 4, "w"), (5, 6, 7, "w"), (11, 7, 3, "w")]
    for J, K, m, e in g:
        for nh in (0, 1):
            r.append(dict(name="sweeps%d_%dx3x%d_%s_nh%d" % (m, J, K, "error" if e == "e" else "warning", nh), J=J, K=K, maxit=m, err=e == "e", nh=nh, what="uT"))
    for J, K, m in [(17, 9, 3)] + ([(33, 12, 4)] if tier == "thorough" else []):     # ordinary sizes
        r.append(dict(name="sweeps%d_%dx3x%d" % (m, J, K), J=J, K=K, maxit=m, err=False, nh=0, what="uT", few=40))
    for J, K in [(5, 4), (7, 5)] + ([(9, 6)] if tier == "thorough" else []):
        r.append(dict(name="pv_%dx3x%d" % (J, K), J=J, K=K, maxit=3, err=False, nh=0, what="q"))
    return r


def run(h, c):
    qg.stub_ranges()
    J, K, I = c["J"], c["K"], 3
    tol = h.num("tol", 1e-4, 30.0) if c["what"] == "uT" else 1e6
    rjac = 0.83
    o, d = qg.make(h, "NH18", J, I, K, nh=c["nh"], sym="", maxit=c["maxit"], tol=tol, rjac=rjac, npart=BINS[J], raise_error_for_nonconvergence=c["err"])
    nd = d["nd"]
    a, om, H, R, cp = [qg.PAR[x] for x in ("planet_radius", "omega", "scale_height", "dry_gas_constant", "cp")]
    kap, dz, dp = R / cp, qg.DZ, math.pi / (J - 1)
    z = d["z"]
    S = {}
    for e in "ns":
        S["u" + e] = h.arr("u" + e, (I, J, K), -1, 1) if c["what"] == "uT" else h.mk(h.generic("u" + e, (I, J, K), -1, 1))
        S["t" + e] = h.arr("t" + e, (I, J, K), 2, 6) if c["what"] == "uT" else h.mk(h.generic("t" + e, (I, J, K), 2, 6))
        S["s" + e] = h.generic("s" + e, (K,), 0.6, 1.4)
    o.interpolate_fields(return_named_tuple=False)
    pv = np.array([[[float(x) for x in r] for r in p] for p in np.asarray(o.qgpv)])
    dq = {}
    if c["what"] == "q":
        for k in range(1, K - 1):
            hi, lo = pv[k].max(), pv[k].min()
            for j in range(J):
                for i in range(I):
                    dq[i, j, k] = h.num("dq[%d,%d,%d]" % (i, j, k), -1, 1) * (1e-4 * (hi - lo))
    real = h.pkg.oopinterface.compute_reference_states
    got = []

    def kernel(*args, **k):
        k.update(dict(zip(ORDER, args[:4])))
        p = np.asarray(k["pv"], dtype=float)
        e = "n" if abs(p[0, -1, 1] - pv[1, -1, 0]) + abs(p[1, -2, 1] - pv[1, -2, 1]) < 1e-9 else "s"
        got.append(e)
        k.update(uu=S["u" + e], pt=S["t" + e], stat=S["s" + e])
        if dq:
            k["pv"] = S["q" + e] = perturbed(p, e)
        r = real(**{n: v for n, v in k.items() if n in ORDER}, **{n: v for n, v in k.items() if n not in ORDER}) if not args[4:] \
            else real(k["pv"], k["uu"], k["pt"], k["stat"], *args[4:], **{n: v for n, v in k.items() if n not in ORDER})
        return r

    def perturbed(p, e):
        q = p.astype(object)
        for (i, j, k), x in dq.items():
            if e == "n":
                q[i, j, k] = q[i, j, k] + x
            else:
                q[i, J - 1 - j, k] = q[i, J - 1 - j, k] - x
        return h.mk(q)
    with qg.replaced(h, compute_reference_states=kernel):
        res = h.tryto(o.compute_reference_states, return_named_tuple=False)
    # ---------------- the stated scheme
    cos = [math.cos(dp * m) for m in range(nd)]
    sin = [math.sin(dp * m) for m in range(nd)]
    out = {}
    for e, s in (("n", 1), ("s", -1)):
        if e == "s" and c["nh"]:
            continue
        u0, t0 = [np.asarray(S[x + e], dtype=object) for x in "ut"]
        st = S["s" + e]
        ub = np.zeros((nd, K), dtype=object)
        tb = np.zeros((nd, K), dtype=object)
        for m in range(nd):
            for k in range(K):
                for i in range(I):
                    ub[m, k] = ub[m, k] + u0[i, nd - 1 + m, k] / I
                    tb[m, k] = tb[m, k] + t0[i, nd - 1 + m, k] / I
        p = np.asarray(S["q" + e], dtype=object) if dq else (pv if e == "n" else -pv[:, ::-1]).transpose(2, 1, 0)
        q, circ = reference(h, p, J, I, K, nd, a)
        cbar = [0.0] * K
        for k in range(1, K - 1):
            z_ = [sum((p[i, nd - 1 + m, k] for i in range(I)), 0.0) / I for m in range(nd)]
            for m in range(nd - 1):
                cbar[k] = cbar[k] + (z_[m + 1] + z_[m]) * (0.5 * a * dp * 2 * math.pi * a * math.cos(dp * (m + 0.5)))
        A, B, C, D, F = [{} for _ in range(5)]
        anf = 0.0
        for m in range(1, nd - 1):
            for k in range(1, K - 1):
                A[m, k] = 1 / (math.sin(dp * (m + 0.5)) * math.cos(dp * (m + 0.5)))
                B[m, k] = 1 / (math.sin(dp * (m - 0.5)) * math.cos(dp * (m - 0.5)))
                f = 4 * om * om * H * a * a * sin[m] * dp * dp / (dz * dz * R * cos[m]) * math.exp(z[k] / H)
                C[m, k] = f * math.exp((kap - 1) * (z[k] + dz / 2) / H) * 2 / (st[k] + st[k + 1])
                D[m, k] = f * math.exp((kap - 1) * (z[k] - dz / 2) / H) * 2 / (st[k] + st[k - 1])
                F[m, k] = (q[m + 1, k] - q[m - 1, k]) * (-om * a * dp)
                anf = anf + h.ite(F[m, k] < 0, -F[m, k], F[m, k])
        u = np.zeros((nd, K), dtype=object)
        w = 1.0
        met, n = False, 0
        while n < c["maxit"] and not met:
            n += 1
            an = 0.0
            for m in range(1, nd - 1):
                for k in range(1, K - 1):
                    if (m + 1 + k + 1) % 2 == n % 2:
                        E = -(A[m, k] + B[m, k] + C[m, k] + D[m, k])
                        r = u[m + 1, k] * A[m, k] + u[m - 1, k] * B[m, k] + u[m, k + 1] * C[m, k] + u[m, k - 1] * D[m, k] + u[m, k] * E - F[m, k]
                        an = an + h.ite(r < 0, -r, r)
                        u[m, k] = u[m, k] - r * (w / E)
                u[m, K - 1] = u[m, K - 3] - (tb[m + 1, K - 2] - tb[m - 1, K - 2]) * (
                    dz * R * cos[m] * math.exp(-z[K - 2] * kap / H) / (2 * om * sin[m] * dp * H * a))
            for k in range(1, K - 1):
                u[0, k] = ub[0, k] + (circ[k] - cbar[k]) / (2 * math.pi * a)
            w = 1 / (1 - 0.5 * rjac ** 2) if n == 1 else 1 / (1 - 0.25 * rjac ** 2 * w)
            if n > 1 and bool(an < tol * anf):
                met = True
        out[e] = (met, n, u, ub, tb, q, s)
    bad = [e for e in "ns" if e in out and not out[e][0]]
    late = [e for e in "ns" if e in out and out[e][0] and out[e][1] == c["maxit"]]    # met in the very last sweep: either report is right
    raised = hasattr(res, "exc")
    flagged = bool(o.nonconvergent_uref)
    if bad:
        h.true("non-convergence reported", flagged)
        h.true("non-convergence is an error", raised == c["err"])
    elif not late:
        h.true("convergence reported", not flagged and not raised)
    if raised:
        h.true("kind of error", isinstance(res.exc, ValueError) and (c["err"] and bool(bad or late)))
    if flagged:
        for n in ("compute_lwa_and_barotropic_fluxes", "compute_layerwise_lwa_fluxes"):
            h.raises(n + " refused", Exception, getattr(o, n))
    if raised:
        h.raises("reference states not available", Exception, getattr, o, "uref")
        return
    U_, T_, Q_ = [np.asarray(x, dtype=object) for x in (o.uref, o.ptref, o.qref)]
    lo = nd - 1 if c["nh"] else 0
    h.eq("shape", U_.shape[1], nd if c["nh"] else J)
    for e, (met, n, u, ub, tb, q, s) in out.items():
        row = [nd - 1 + s * m - lo for m in range(nd)]
        skip = 1 if e == "n" and not c["nh"] else 0             # equator row of a global run: southern analysis
        for m in range(1, nd):
            for k in range(1, K - 1):
                h.eq("%s reference PV[%d,%d]" % (e, m, k), Q_[k, row[m]], q[m, k] * (2 * om * s * sin[m]))
        if not met:
            continue
        U = u.copy()
        for m in range(1, nd - 1):
            U[m] = U[m] / cos[m]
        U[0] = ub[0]
        U[nd - 1] = U[nd - 2] * 2 - U[nd - 3]
        for m in range(skip, nd):
            for k in range(K):
                h.eq("%s wind[%d,%d]" % (e, m, k), U_[k, row[m]], U[m, k])
        wt = sum(cos)
        mean = [0.0] * K
        for k in range(K):
            for m in range(nd):
                mean[k] = mean[k] + tb[m, k] * (cos[m] / wt)
        TT = np.zeros((nd, K), dtype=object)
        for k in range(1, K - 1):
            for m in range(1, nd - 1):
                ty = (U[m, k + 1] - U[m, k - 1]) * (-2 * om * sin[m] * a * H * math.exp(kap * z[k] / H) / (R * 2 * dz))
                TT[m + 1, k] = TT[m - 1, k] + ty * (2 * dp)
            tg = 0.0
            for m in range(nd):
                tg = tg + TT[m, k] * (cos[m] / wt)
            for m in range(nd):
                TT[m, k] = TT[m, k] + mean[k] - tg
        for m in range(nd):
            TT[m, 0] = TT[m, 1] - mean[1] + mean[0]
            TT[m, K - 1] = TT[m, K - 2] - mean[K - 2] + mean[K - 1]
        for m in range(skip, nd):
            for k in range(K):
                h.eq("%s temperature[%d,%d]" % (e, m, k), T_[k, row[m]], TT[m, k])


def reference(h, p, J, I, K, nd, a):
    """reference PV over 2 omega sin(latitude) by row from the equator, and circulation at the equator (C10)"""
    q = np.zeros((nd, K), dtype=object)
    circ = [0.0] * K
    om = qg.PAR["omega"]
    dp, dl = math.pi / (J - 1), 2 * math.pi / I
    for k in range(1, K - 1):
        x = {(i, j): p[i, j, k] for i in range(I) for j in range(J)}
        q_, c_ = qg.contours(h, x, J, I, BINS[J], nd, a)
        for m in range(1, nd):
            q[m, k] = q_[m] / (2 * om * math.sin(dp * m))
        q[0, k] = q[1, k] * 2 - q[2, k]
        circ[k] = c_[0]
    return q, circ
