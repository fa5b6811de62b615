"""compute_lwa_and_barotropic_fluxes and compute_layerwise_lwa_fluxes of both 3-D classes executed on symbolic winds, PV,
forcing and reference states: every barotropic output against the density-weighted sum of the layerwise output of the
same object, and the derived outputs against their formulas."""
import math
import numpy as np
from checks import qg

BOUNDS = "analysis grids of 5-7 latitudes, 3-5 longitudes, 4-6 levels, boundary index 0-1 (2 thorough), global and northern-only; winds, PV, forcing, reference PV/wind/temperature symbolic; temperature generic concrete; ordinary size: 21 latitudes, 8 longitudes, 7 levels, boundary index 0 and 4 (thorough 37x12x9), all symbolic"
OUTSIDE = "still larger grids; even latitude grids (C22); values of PV exactly equal to the reference PV"
ASSUME = ["the PV and reference-state kernels return arbitrary finite values (their own contracts: C08, C10-C12)"]
KERNELS = ["compute_flux_dirinv"]


def configs(tier):
    r = []
    for cls in ("NH18", "NHN22"):
        for J, I, K, jb in [(5, 3, 5, 0), (5, 5, 4, 0), (7, 3, 4, 1), (21, 8, 7, 0), (21, 8, 7, 4)] + ([(7, 4, 6, 0), (9, 3, 5, 2), (37, 12, 9, 6)] if tier == "thorough" else []):
            if jb and cls == "NH18":
                continue
            for nh in (0, 1):
                r.append(dict(name="%s_%dx%dx%d_nh%d_jb%d" % (cls, J, I, K, nh, jb), cls=cls, J=J, I=I, K=K, nh=nh, jb=jb))
    return r


def run(h, c):
    qg.stub_ranges()
    o, d = qg.make(h, c["cls"], c["J"], c["I"], c["K"], nh=c["nh"], jb=c["jb"], sym="uv")
    P = qg.plug_values(h, d, hems="n" if c["nh"] else "ns")
    nc = h.arr("nc", (d["K"], d["J"], d["nlon"]), -1, 1)
    with qg.plugged(h, d, P):
        o.interpolate_fields(return_named_tuple=False)
        o.compute_reference_states(return_named_tuple=False)
        o.compute_layerwise_lwa_fluxes(ncforce=nc)
        st = o.layerwise_flux_terms_storage
        lay = {n: np.array(st.fortran_to_python(getattr(st, n)), dtype=object) for n in ("lwa", "ncforce", "ua1", "ua2", "ep1", "ep2", "ep3")}
        nt = o.compute_lwa_and_barotropic_fluxes(ncforce=nc)
    K, J, I, nd, jb = d["K"], d["J"], d["nlon"], d["nd"], d["jb"]
    a, H = qg.PAR["planet_radius"], qg.PAR["scale_height"]
    pref = sum(math.exp(-qg.DZ * k / H) * qg.DZ for k in range(1, K - 1))
    h.eq("prefactor", o.prefactor, pref)
    w = [math.exp(-d["z"][k] / H) * qg.DZ / pref for k in range(K)]
    lo = nd - 1 if c["nh"] else 0

    def ave(x):
        r = 0.0
        for k in range(1, K - 1):
            r = r + x[k] * w[k]
        return r
    cos = [max(math.cos(math.radians(y)), 0.0) for y in d["ya"]][lo:]
    col = np.array(cos)[:, None]
    b = {n: ave(x) for n, x in lay.items()}
    u, v = [np.asarray(d[n], dtype=object)[:, lo:] for n in "uv"]
    U = np.asarray(qg.ref_rows(d, P)[1])[:, lo:]
    h.eq("lwa_baro", o.lwa_baro, h.mk(b["lwa"]))
    h.eq("ncforce_baro", o.ncforce_baro, h.mk(b["ncforce"]))
    h.eq("adv_flux_f1", o.adv_flux_f1, h.mk(b["ua1"]))
    h.eq("adv_flux_f2", o.adv_flux_f2, h.mk(b["ua2"]))
    h.eq("adv_flux_f3", o.adv_flux_f3, h.mk(b["ep1"]))
    tot = b["ua1"] + b["ua2"] + b["ep1"]
    h.eq("flux_vector_lambda_baro", o.flux_vector_lambda_baro, h.mk(tot))
    h.eq("u_baro", o.u_baro, h.mk(ave(u)))
    ok = [r for r in range(len(cos)) if abs(r + lo - nd + 1) >= jb]
    phi = ave(-((u - U[:, :, None]) * v)) * col
    h.eq("flux_vector_phi_baro", o.flux_vector_phi_baro[ok], h.mk(phi[ok]))
    conv, div = np.zeros(tot.shape, dtype=object), np.zeros(tot.shape, dtype=object)
    for r, cc in enumerate(cos):
        if cc > 1e-5:
            for i in range(I):
                conv[r, i] = -(tot[r, (i + 1) % I] - tot[r, (i - 1) % I]) / (a * cc * 2 * (2 * math.pi / I))
                div[r, i] = (b["ep2"][r, i] - b["ep3"][r, i]) / (2 * a * cc * (math.pi / (J - 1)))
    h.eq("convergence_zonal_advective_flux", o.convergence_zonal_advective_flux, h.mk(conv))
    h.eq("divergence_eddy_momentum_flux", o.divergence_eddy_momentum_flux, h.mk(div))
    for n in nt._fields:
        h.eq("returned " + n, getattr(nt, n), getattr(o, n))
