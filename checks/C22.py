"""An object on a grid without equator row next to one of the same class given the same symbolic fields already interpolated
linearly onto the odd analysis grid: every output of the former is the latter's interpolated back."""
import numpy as np
from checks import qg, pairs

BOUNDS = "grids of 4, 6 and 8 latitudes (10 and 12 thorough; with and without pole rows), 3-5 longitudes (7 thorough), 4 levels, boundary index 0-2, both classes, global and northern-hemisphere-only, levels evenly spaced or interpolated; stages: interpolation, PV, forcing by heating (winds or temperature symbolic) with the arguments the reference states are computed from; every output for symbolic PV, forcing (on either grid) and reference states, layerwise, barotropic and wave-activity-only, as attribute and as returned; ordinary size: 18-20 latitudes, 9-10 longitudes, 6-7 levels, boundary index 0-4 (thorough 36x16x5, 24x18x9), all symbolic"
OUTSIDE = "larger grids; latitude coordinates that are not evenly spaced"
ASSUME = qg.ASSUME


def configs(tier):
    r = []
    t = tier == "thorough"
    for cls in ("NH18", "NHN22"):
        for J, I, jb, poles in [(4, 3, 0, False), (6, 3, 1, True), (6, 4, 0, False), (4, 5, 0, True), (8, 3, 2, False)] + ([(8, 4, 1, True), (10, 3, 2, True), (12, 4, 3, False), (4, 7, 0, False), (8, 6, 0, True)] if t else []):
            if cls == "NH18":
                jb = 0
            for nh in (False, True):
                b = dict(cls=cls, J=J, I=I, jb=jb, poles=poles, nh=nh)
                n = "%s_%dx%d_jb%d_%s_%s" % (cls, J, I, jb, "poles" if poles else "no poles", "north" if nh else "global")
                for ev in (True, False):
                    for w in ("uv", "t"):
                        r.append(dict(b, name=n + "_%s_fields_%s" % ("even levels" if ev else "interpolated", w), kind="fields", sy=w, ev=ev))
                r.append(dict(b, name=n + "_fluxes", kind="fluxes", ev=True))
        for J, I, K, jb, poles in [(20, 10, 7, 4, False), (18, 9, 6, 0, True)] + ([(36, 16, 5, 6, False), (24, 18, 9, 2, True)] if t else []):   # ordinary sizes
            for nh in (False, True):
                b = dict(cls=cls, J=J, I=I, K=K, jb=jb if cls == "NHN22" else 0, poles=poles, nh=nh)
                n = "%s_%dx%dx%d_jb%d_%s_%s" % (cls, J, I, K, b["jb"], "poles" if poles else "no poles", "north" if nh else "global")
                r.append(dict(b, name=n + "_interpolated_fields_uv", kind="fields", sy="uv", ev=False))
                r.append(dict(b, name=n + "_fields_t", kind="fields", sy="t", ev=True))
                if t or (J == 20) != nh:
                    r.append(dict(b, name=n + "_fluxes", kind="fluxes", ev=True))
    return r


def two(h, c, sym):
    k = dict(jb=c["jb"], nh=c["nh"], evenly=c["ev"], nlev=None if c["ev"] else c.get("K", 4) + 1)
    o, d = qg.make(h, c["cls"], c["J"], c["I"], c.get("K", 4), sym=sym, poles=c["poles"], **k)
    f = tuple(h.mk(qg.lin(d["y"], a, 1, d["ya"])) for a in (d["u"], d["v"], d["t"]))
    o2, d2 = qg.make(h, c["cls"], c["J"] + 1, c["I"], c.get("K", 4), u=f, **k)
    y = np.asarray(d["y"])
    h.eq("latitudes reported", o.ylat_ref_states, y[y > 0] if c["nh"] else y)
    h.eq("input latitudes", o.ylat, y)
    h.eq("normalisation", o.prefactor, o2.prefactor)
    return o, d, o2, d2


def compare(h, d, A, B):
    h.true("same outputs", sorted(x for x in A if x not in pairs.STORE) == sorted(x for x in B if x not in pairs.STORE))
    for m in A:
        if m == "stability":
            for a, b in zip(A[m], B[m]):
                h.eq(m, a, b)
        else:
            h.eq(m, A[m], qg.back(d, B[m], pairs.AXES[m.split()[-1]].index("l")))


def fields(h, c):
    qg.stub_ranges()
    o, d, o2, d2 = two(h, c, c["sy"])
    q = h.arr("q", np.shape(d["u"]), -1, 1)
    with pairs.Asked(h, d) as k:
        A, B = pairs.first_step(o), pairs.first_step(o2)
        A["forcing"] = pairs.arr(o.compute_ncforce_from_heating_rate(heating_rate=q))
        B["forcing"] = pairs.arr(o2.compute_ncforce_from_heating_rate(heating_rate=h.mk(qg.lin(d["y"], q, 1, d["ya"]))))
        o.compute_reference_states(return_named_tuple=False)
        o2.compute_reference_states(return_named_tuple=False)
    compare(h, d, A, B)
    n = len(k.seen) // 2
    h.eq("reference states requested", len(k.seen), 2 if c["nh"] else 4)
    for i in range(n):
        for m in k.seen[i]:
            h.eq("hemisphere %d: %s" % (i, m), k.seen[i][m], k.seen[n + i][m])


def fluxes(h, c):
    qg.stub_ranges()
    o, d, o2, d2 = two(h, c, "uv")
    P = qg.plug_values(h, d, hems="n" if c["nh"] else "ns")
    nc = h.arr("nc", np.shape(d["u"]), -1, 1)
    mid = h.mk(qg.lin(d["y"], nc, 1, d["ya"]))
    with qg.plugged(h, d, P):
        t1 = o.interpolate_fields()
        A = pairs.rest(o, nc)
        t2 = o.compute_reference_states()
        t3 = o.compute_lwa_and_barotropic_fluxes(ncforce=nc)
        for m in t3._fields:
            h.eq("returned " + m, getattr(t3, m), A[m])
        for x, m in zip(t1[:4], ("qgpv", "interpolated_u", "interpolated_v", "interpolated_theta")):
            h.eq("returned " + m, x, getattr(o, m))
        for x, m in zip(t2, ("qref", "uref", "ptref")):
            h.eq("returned " + m, x, A[m])
        o.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=mid)
        h.eq("forcing on the analysis latitudes", o.ncforce_baro, A["ncforce_baro"])
    with qg.plugged(h, d2, P):
        o2.interpolate_fields(return_named_tuple=False)
        B = pairs.rest(o2, mid)
    compare(h, d, A, B)


def run(h, c):
    globals()[c["kind"]](h, c)
