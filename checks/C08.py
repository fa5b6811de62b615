"""interpolate_fields of both 3-D classes executed on symbolic winds and temperatures (the QGPV kernels interpreted from
gfortran's IR); QGPV and absolute vorticity compared with the centred-difference definition."""
import math
import numpy as np
from checks import qg

BOUNDS = "grids of 5-7 latitudes, 3-5 longitudes (also unlike spacing in latitude and longitude), 4-5 levels, global and northern-only, boundary index 0-1; all winds and temperatures symbolic; ordinary size: 20-21 latitudes, 4-10 longitudes, 7 levels (thorough 37x18x9), all symbolic"
OUTSIDE = "larger grids; the smoothing spline of SciPy (uninterpreted)"
ASSUME = qg.ASSUME
KERNELS = ["compute_qgpv", "compute_qgpv_direct_inv"]


def configs(tier):
    r = []
    g = [(5, 3, 4), (5, 4, 5), (7, 4, 4), (21, 10, 7)] + ([(7, 12, 4), (9, 5, 4), (7, 3, 6), (37, 18, 9)] if tier == "thorough" else [])
    for cls in ("NH18", "NHN22"):
        for J, I, K in g:
            for nh in (0, 1):
                for jb in ((0, 1) if cls == "NHN22" else (0,)):
                    r.append(dict(name="%s_%dx%dx%d_nh%d_jb%d" % (cls, J, I, K, nh, jb), cls=cls, J=J, I=I, K=K, nh=nh, jb=jb))
        for J, K, nlev, jb in (((6, 4, 5, 0), (6, 4, 4, 1), (20, 7, 9, 4)) if tier == "quick" else ((6, 4, 5, 0), (6, 4, 4, 1), (7, 5, 7, 1), (20, 7, 9, 4), (36, 9, 12, 6))):
            r.append(dict(name="%s_%dx4x%d_uneven%d_jb%d" % (cls, J, K, nlev, jb), cls=cls, J=J, I=4, K=K, nlev=nlev, evenly=False, nh=0, jb=jb))
    return r


def run(h, c):
    qg.stub_ranges()
    o, d = qg.make(h, c["cls"], c["J"], c["I"], c["K"], nlev=c.get("nlev"), evenly=c.get("evenly", True), nh=c["nh"], jb=c["jb"])
    keep = [np.array(d[n]) for n in "uvt"]
    nt = o.interpolate_fields()
    g = qg.grids(h, d)
    pv, av = qg.qgpv(d, g)
    h.eq("qgpv", nt.QGPV, h.mk(qg.back(d, pv, 1)))
    h.eq("qgpv property", o.qgpv, nt.QGPV)
    h.eq("absolute vorticity", o._interpolated_field_storage.interpolated_avort, h.mk(np.swapaxes(av, 0, 2)))
    for n, a in zip("uvt", keep):
        h.eq("input unchanged " + n, d[n], a)
