"""compute_lwa_only executed next to compute_lwa_and_barotropic_fluxes and compute_layerwise_lwa_fluxes of the same class on
the same symbolic winds, PV and reference states (flux and wave-activity kernels interpreted from gfortran's IR)."""
import math
import numpy as np
from checks import qg

BOUNDS = "analysis grids of 5-7 latitudes, 3-4 longitudes, 4-5 levels, boundary index 0-1 (2 thorough), global and northern-only, converged and non-converged (in either hemisphere) reference winds; zonal wind, PV and reference states symbolic; ordinary size: 13 latitudes, 6 longitudes, 5 levels (thorough 33x12x7), one value in 60 symbolic"
OUTSIDE = "still larger grids; even latitude grids (C22); values of PV exactly equal to the reference PV"
ASSUME = ["the PV and reference-state kernels return arbitrary finite values (their own contracts: C08, C10-C12)"]
KERNELS = ["compute_flux_dirinv", "compute_lwa_only_nhn22"]


def configs(tier):
    r = []
    for cls in ("NH18", "NHN22"):
        for J, I, K, jb in [(5, 3, 5, 0), (5, 4, 4, 0), (7, 3, 4, 1)] + ([(7, 4, 5, 0), (9, 3, 4, 2)] if tier == "thorough" else []):
            if jb and cls == "NH18":
                continue
            for nh in (0, 1):
                for bad in (("", "n", "s", "ns") if cls == "NH18" and (J, I) == (5, 3) else ("",)):
                    if "s" in bad and nh:
                        continue
                    r.append(dict(name="%s_%dx%dx%d_nh%d_jb%d_%s" % (cls, J, I, K, nh, jb, bad and "nonconvergent_" + bad), cls=cls, J=J, I=I, K=K, nh=nh,
                                  jb=jb, bad=bad))
        for J, I, K, jb in [(13, 6, 5, 2)] + ([(21, 8, 6, 4), (33, 12, 7, 0)] if tier == "thorough" else []):     # ordinary sizes
            for nh in (0, 1):
                r.append(dict(name="%s_%dx%dx%d_nh%d_few" % (cls, J, I, K, nh), cls=cls, J=J, I=I, K=K, nh=nh, jb=jb if cls == "NHN22" else 0, bad="", few=60))
    return r


def run(h, c):
    qg.stub_ranges()
    kw = dict(raise_error_for_nonconvergence=False, maxit=50) if c["cls"] == "NH18" else {}
    o, d = qg.make(h, c["cls"], c["J"], c["I"], c["K"], nh=c["nh"], jb=c["jb"], sym="u", **kw)
    o2, _ = qg.make(h, c["cls"], c["J"], c["I"], c["K"], nh=c["nh"], jb=c["jb"], u=(d["u"], d["v"], d["t"]), **kw)
    P = qg.plug_values(h, d, hems="n" if c["nh"] else "ns")
    with qg.plugged(h, d, P, iters={e: 51 for e in c["bad"]}):
        o.interpolate_fields(return_named_tuple=False)
        o.compute_reference_states(return_named_tuple=False)
        h.true("non-convergence flag", bool(o.nonconvergent_uref) == bool(c["bad"]))
        if c["bad"]:
            h.raises("flux computation refused", ValueError, o.compute_lwa_and_barotropic_fluxes)
        r = h.returns("wave activity available", o.compute_lwa_only)
        # the full computation on the same reference states
        with qg.plugged(h, d, P):
            o2.interpolate_fields(return_named_tuple=False)
            o2.compute_reference_states(return_named_tuple=False)
            o2.compute_layerwise_lwa_fluxes()
            full = {n: np.array(getattr(o2.layerwise_flux_terms_storage, n)) for n in ("astar1", "astar2", "lwa")}
            o2.compute_lwa_and_barotropic_fluxes(return_named_tuple=False)
    st = o.layerwise_flux_terms_storage
    for n in ("astar1", "astar2", "lwa"):
        h.eq(n, getattr(st, n), full[n])
    h.eq("lwa (barotropic computation)", o.lwa, o2.lwa)
    h.eq("lwa_baro", o.lwa_baro, o2.lwa_baro)
    K, J, nd, jb, H = d["K"], d["J"], d["nd"], d["jb"], qg.PAR["scale_height"]
    lo = nd - 1 if c["nh"] else 0
    w = [math.exp(-d["z"][k] / H) * qg.DZ for k in range(K)]
    w = [x / sum(w[1:-1]) for x in w]
    lwa = np.asarray(o.lwa, dtype=object)
    m = 0.0
    for k in range(1, K - 1):
        m = m + lwa[k] * w[k]
    h.eq("lwa_baro is the average of lwa", o.lwa_baro, h.mk(m))
    rows = [r for r in range(lo, J) if jb <= abs(r - nd + 1) < nd - 1]
    m = 0.0
    for k in range(1, K - 1):
        m = m + np.asarray(d["u"], dtype=object)[k] * w[k]
    h.eq("u_baro", o.u_baro[[r - lo for r in rows]], h.mk(m[rows]))
    h.eq("u_baro of the full computation", o.u_baro[[r - lo for r in rows]], o2.u_baro[[r - lo for r in rows]])
