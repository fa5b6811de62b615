"""compute_layerwise_lwa_fluxes of both 3-D classes executed on symbolic winds, PV, forcing and reference states (the PV
and reference-state kernels replaced by symbolic results; the flux kernel interpreted from gfortran's IR), compared with
the defining contour-exceedance integrals and eddy products; low-level heat flux from the barotropic computation."""
import math
import numpy as np
from checks import qg

BOUNDS = "analysis grids of 5-7 latitudes, 3-4 longitudes, 4-5 levels, boundary index 0-1 (2 thorough), global and northern-only; winds, PV, forcing, reference PV/wind/temperature symbolic; temperature symbolic in one configuration per class, generic concrete otherwise; ordinary size: 17 latitudes, 8 longitudes, 6 levels, boundary index 3 (thorough 33x12x9), one value in 60 symbolic"
OUTSIDE = "still larger grids; even latitude grids (C22); values of PV exactly equal to the reference PV (rounding decides there)"
ASSUME = qg.ASSUME + ["the PV and reference-state kernels return arbitrary finite values (their own contracts: C08, C10-C12)"]
KERNELS = ["compute_flux_dirinv", "compute_lwa_only_nhn22"]


def configs(tier):
    r = []
    g = [(5, 3, 4)] + ([(7, 3, 4), (5, 4, 5)] if tier == "thorough" else [])
    for cls in ("NH18", "NHN22"):
        for J, I, K in g:
            for nh in (0, 1):
                for jb in ((0, 1) if cls == "NHN22" else (0,)):
                    if J - jb * 2 < 5 and J == 5 and jb:
                        J2 = 7
                    else:
                        J2 = J
                    for s in ("uv", "t"):
                        if s == "t" and (nh or (tier == "quick" and jb)):
                            continue
                        r.append(dict(name="%s_%dx%dx%d_nh%d_jb%d_%s" % (cls, J2, I, K, nh, jb, s), cls=cls, J=J2, I=I, K=K, nh=nh, jb=jb, sy=s))
    if tier == "thorough":
        r.append(dict(name="NHN22_9x3x4_nh0_jb2_uv", cls="NHN22", J=9, I=3, K=4, nh=0, jb=2, sy="uv"))
    for cls in ("NH18", "NHN22"):
        for J, I, K, jb in [(17, 8, 6, 3)] + ([(33, 12, 9, 5)] if tier == "thorough" else []):     # ordinary sizes
            r.append(dict(name="%s_%dx%dx%d_uv" % (cls, J, I, K), cls=cls, J=J, I=I, K=K, nh=0, jb=jb if cls == "NHN22" else 0, sy="uv", few=60))
    for nd, I, K, jb in [(4, 3, 4, 0), (5, 2, 5, 1)] + ([(6, 3, 6, 2), (7, 3, 4, 3)] if tier == "thorough" else []):
        for north in (1, 0):
            r.append(dict(name="kernels_%s_%dx%dx%d_jb%d" % ("northern" if north else "southern", nd, I, K, jb), nd=nd, I=I, K=K, jb=jb, north=north))
    return r


def kernels(h, c):
    """the two compiled wave-activity kernels called directly, each setting of their hemisphere switch"""
    nd, I, K, jb, nh = c["nd"], c["I"], c["K"], c["jb"], c["north"]
    J, jd = 2 * nd - 1, nd - jb
    P = qg.PAR
    a, om, H, R, cp = [P[x] for x in ("planet_radius", "omega", "scale_height", "dry_gas_constant", "cp")]
    dz = qg.DZ
    pref = 6500.0
    f = {n: h.arr(n, (I, J, K), -1, 1) for n in ("pv", "uu", "vv", "nc")}
    pt = h.generic("pt", (I, J, K), -1, 1) + 300.0
    tn = np.array([300.0 + 7 * k + k * k for k in range(K)])
    q, u = h.arr("qref", (nd, K), -1, 1), h.arr("uref", (jd, K), -1, 1)
    tr = h.generic("tref", (jd, K), -1, 1) + tn[None, :]
    m = h.pkg.oopinterface
    par = (jb, bool(nh), a, om, dz, H, R, cp, pref)
    names = ("astar1", "astar2", "ncforce", "ua1", "ua2", "ep1", "ep2", "ep3", "ep4")
    got = dict(zip(names, m.compute_flux_dirinv_nshem(f["pv"], f["uu"], f["vv"], h.mk(pt), f["nc"], tn, q, u, h.mk(tr), *par)))
    only = dict(zip(("lwa_baro", "u_baro", "astar1", "astar2"), m.compute_lwa_only_nhn22(f["pv"], f["uu"], q, *par)))
    pv, uu, vv, nc, q, u = [np.asarray(x, dtype=object) for x in (f["pv"], f["uu"], f["vv"], f["nc"], q, u)]
    dp = math.pi / (J - 1)
    phi = [dp * j - (0 if nh else math.pi / 2) for j in range(nd)]
    cos = [math.cos(p) for p in phi]
    o0 = nd - 1 if nh else 0                       # grid row of analysis row 0
    r0 = jb if nh else 0                           # analysis row of the first reference row
    rows = range(jb, nd - 1) if nh else range(1, nd - jb)
    z = [dz * k for k in range(K)]
    w = {n: np.zeros((I, nd, K), dtype=object) for n in names[:-1]}
    w["ep4"] = np.zeros((I, nd), dtype=object)
    wb = {n: np.zeros((I, nd), dtype=object) for n in ("lwa_baro", "u_baro")}
    for j in rows:
        for i in range(I):
            for k in range(1, K - 1):
                above = below = n_ = f2 = 0.0
                for s in range(nd):
                    qe = pv[i, s + o0, k] - q[j, k]
                    ue = uu[i, s + o0, k] * cos[j] - u[j - r0, k] * cos[s]
                    x = h.pos(-qe) if s >= j else h.pos(qe)
                    if s >= j:
                        above = above + x * (a * dp * cos[s])
                        n_ = n_ - h.ite(qe > 0, 0.0, nc[i, s + o0, k]) * (a * dp * cos[s])
                    else:
                        below = below + x * (a * dp * cos[s])
                        n_ = n_ + h.ite(qe > 0, nc[i, s + o0, k], 0.0) * (a * dp * cos[s])
                    f2 = f2 + x * ue * (a * dp)
                cyc, anti = (below, above) if nh else (above, below)
                U = lambda s: u[s - r0, k]
                e, te = uu[i, j + o0, k] - U(j), pt[i, j + o0, k] - tr[j - r0, k]
                w["astar1"][i, j, k], w["astar2"][i, j, k], w["ncforce"][i, j, k] = cyc, anti, n_
                w["ua1"][i, j, k], w["ua2"][i, j, k] = U(j) * (cyc + anti), f2
                w["ep1"][i, j, k] = (vv[i, j + o0, k] * vv[i, j + o0, k] * 0.5 - e * e * 0.5
                                     - te * te * (0.5 * (R / H) * math.exp(-R / cp * z[k] / H) * 2 * dz / (tn[k + 1] - tn[k - 1]))) * cos[j]
                up = j + 1 if 0 <= j + 1 - r0 < jd else j
                dn = j - 1 if 0 <= j - 1 - r0 < jd else j
                w["ep2"][i, j, k] = (uu[i, up + o0, k] - U(up)) * vv[i, up + o0, k] * cos[up] ** 2
                w["ep3"][i, j, k] = (uu[i, dn + o0, k] - U(dn)) * vv[i, dn + o0, k] * cos[dn] ** 2
                rho = math.exp(-z[k] / H) * dz / pref
                wb["lwa_baro"][i, j] = wb["lwa_baro"][i, j] + (cyc + anti) * rho
                wb["u_baro"][i, j] = wb["u_baro"][i, j] + uu[i, j + o0, k] * rho
            w["ep4"][i, j] = (vv[i, j + o0, 1] * (pt[i, j + o0, 1] - tr[j - r0, 1]) * (math.exp(-dz / H) / (tn[2] - tn[0]))
                              + vv[i, j + o0, 0] * (pt[i, j + o0, 0] - tr[j - r0, 0]) * (0.5 / (tn[1] - tn[0]))) * (2 * om * math.sin(phi[j]) * cos[j] * dz / pref)
    for n in names:
        h.eq("flux kernel " + n, got[n], h.mk(w[n]))
    for n in ("astar1", "astar2"):
        h.eq("wave-activity kernel " + n, only[n], h.mk(w[n]))
    for n in wb:
        h.eq("wave-activity kernel " + n, only[n], h.mk(wb[n]))


def run(h, c):
    if "north" in c:
        return kernels(h, c)
    qg.stub_ranges()
    o, d = qg.make(h, c["cls"], c["J"], c["I"], c["K"], nh=c["nh"], jb=c["jb"], sym=c["sy"])
    P = qg.plug_values(h, d, hems="n" if c["nh"] else "ns")
    nc = h.arr("nc", (d["K"], d["J"], d["nlon"]), -1, 1)
    keep = [np.array(a) for a in (d["u"], d["v"], d["t"], nc)]
    with qg.plugged(h, d, P):
        o.interpolate_fields(return_named_tuple=False)
        o.compute_reference_states(return_named_tuple=False)
        o.compute_layerwise_lwa_fluxes(ncforce=nc)
        o.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=nc)
    g = qg.grids(h, d)
    pv = np.swapaxes(np.asarray(P["pv"], dtype=object), 0, 2)
    Q, U, T = qg.ref_rows(d, P)
    s, pref = qg.fluxes(h, d, g, pv, Q, U, T, np.asarray(nc, dtype=object))
    lo = d["nd"] - 1 if c["nh"] else 0
    for n, a in (("qref", Q), ("uref", U), ("ptref", T)):
        h.eq(n, getattr(o, n), h.mk(a[:, lo:]))
    for n in ("ua1", "ua2", "ep1", "ep2", "ep3"):
        h.eq(n, getattr(o, n), h.mk(s[n][:, lo:]))
    ok = [r for r in range(lo, d["J"]) if abs(r - d["nd"] + 1) >= d["jb"]]
    h.eq("stretch_term", o.stretch_term[:, [r - lo for r in ok], :], h.mk(s["stretch_term"][:, ok]))
    st = o.layerwise_flux_terms_storage
    for n in ("lwa", "astar1", "astar2", "ncforce"):
        h.eq(n, st.fortran_to_python(getattr(st, n)), h.mk(s[n][:, lo:]))
    h.eq("low-level heat flux", o.meridional_heat_flux, h.mk(s["ep4"][lo:]))
    for n, a, b in zip(("u", "v", "t", "ncforce"), (d["u"], d["v"], d["t"], nc), keep):
        h.eq("input unchanged " + n, a, b)
