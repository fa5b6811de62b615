"""Constructor and interpolate_fields of both 3-D classes executed on symbolic winds and temperatures: the fields on the
analysis grid against piecewise-linear interpolation of the input columns, static stability against the spline's
derivative of the hemispheric means, heights against the documented formula."""
import math
import numpy as np
from checks import qg

BOUNDS = "input of 4-8 uneven levels (lowest below or above z = 0) or evenly spaced levels, 5-7 latitudes (odd, and even with and without poles), 3-4 longitudes, 4-6 pseudoheight levels, boundary index 0-2; all winds and temperatures symbolic; ordinary size: 20-21 latitudes, 9-10 longitudes, 7-8 levels (thorough 37x18x12), all symbolic"
OUTSIDE = "larger grids; the smoothing spline of SciPy is an uninterpreted function of its data"
ASSUME = qg.ASSUME
KERNELS = ["compute_qgpv", "compute_qgpv_direct_inv"]


def configs(tier):
    r = []
    for cls in ("NH18", "NHN22"):
        for jb in ((0, 1, 2) if cls == "NHN22" else (0,)):
            g = [(5, 3, 4, 5, 0), (5, 3, 4, 4, 1), (6, 4, 4, 6, 0), (7, 3, 4, 0, 0), (21, 10, 7, 9, 0), (20, 9, 8, 0, 0)]
            if tier == "thorough":
                g += [(7, 4, 5, 8, 1), (8, 3, 5, 7, 0), (6, 3, 5, 0, 0), (9, 3, 6, 8, 0), (37, 18, 12, 17, 1)]
            for J, I, K, nlev, low in g:
                if jb == 2 and J < 7:
                    continue
                for poles in ((0, 1) if J % 2 == 0 else (1,)):
                    for nh in (0, 1):
                        r.append(dict(name="%s_%d%sx%dx%d_lev%d_low%d_jb%d_nh%d" % (cls, J, "p" if poles else "c", I, K, nlev, low, jb, nh), cls=cls, J=J,
                                      I=I, K=K, nlev=nlev, low=low, jb=jb, poles=poles, nh=nh))
        for J, poles, nlev in ((5, 1, 5), (5, 1, 0), (6, 1, 5), (6, 0, 0)):
            r.append(dict(name="%s_%d_lev%d_integer_winds" % (cls, J, nlev), cls=cls, J=J, I=4, K=4, nlev=nlev, low=0, jb=0, poles=poles, nh=0, intwind="uv", icoord=1))
    return r


def run(h, c):
    qg.stub_ranges()
    o, d = qg.make(h, c["cls"], c["J"], c["I"], c["K"], nlev=c["nlev"] or None, evenly=not c["nlev"], jb=c["jb"], poles=bool(c["poles"]), nh=c["nh"])
    keep = [np.array(d[n]) for n in "uvt"]
    h.eq("heights", o.height, d["z"])
    h.eq("latitudes", o.ylat, d["y"])
    nt = o.interpolate_fields()
    g = qg.grids(h, d)
    for n, a, b in (("u", nt.U, o.interpolated_u), ("v", nt.V, o.interpolated_v), ("th", nt.Theta, o.interpolated_theta)):
        spec = h.mk(qg.back(d, g[n], 1))
        h.eq(n, a, spec)
        h.eq(n + " property", b, a)
    if c["cls"] == "NH18":
        h.eq("static stability", nt.Static_stability, h.mk(g["stn"]))
        h.eq("static stability property", o.static_stability, nt.Static_stability)
    else:
        h.eq("static stability s", nt.Static_stability[0], h.mk(g["sts"]))
        h.eq("static stability n", nt.Static_stability[1], h.mk(g["stn"]))
        ss = o.static_stability
        h.eq("static stability property", ss if c["nh"] else ss[1], nt.Static_stability[1])
        if not c["nh"]:
            h.eq("static stability property s", ss[0], nt.Static_stability[0])
    for n, a in zip("uvt", keep):
        h.eq("input unchanged " + n, d[n], a)
