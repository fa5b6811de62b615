"""A northern-hemisphere-only run next to a global run of the same class on the same symbolic data: stage by stage with
symbolic intermediate results, and end to end with the real reference-state kernels."""
import numpy as np
from checks import qg, pairs

BOUNDS = "grids of 5-9 latitudes (13 thorough; even: 4-6, 10 thorough), 3-5 longitudes (7 thorough), 4 levels, boundary index 0-2, both classes, levels evenly spaced or interpolated; stages: interpolation, PV, forcing (winds or temperature symbolic) with the arguments the northern reference states are computed from; every output for symbolic PV, forcing and reference states, layerwise, barotropic and wave-activity-only; end to end with single symbolic cells; reported latitudes; ordinary size: 20-21 latitudes, 9-10 longitudes, 6-7 levels, boundary index 2-4 (thorough 37x16x5, 25x18x9), all symbolic"
OUTSIDE = "values on the equator row (southern analysis in a global run; on even grids rows interpolated from it) and the momentum-flux terms next to it when the analysis reaches the equator; larger grids"
ASSUME = qg.ASSUME
BESIDE = {"ep2", "ep3", "divergence_eddy_momentum_flux"}


def configs(tier):
    r = []
    t = tier == "thorough"
    for cls in ("NH18", "NHN22"):
        for J, I, jb in [(5, 3, 0), (7, 4, 1), (4, 3, 0), (6, 3, 1), (7, 5, 0), (9, 3, 2)] + ([(9, 4, 1), (8, 3, 0), (11, 3, 2), (10, 3, 1), (13, 4, 3), (5, 7, 0), (9, 6, 0)] if t else []):
            if cls == "NH18":
                jb = 0
            for ev in (True, False):
                for w in ("uv", "t"):
                    r.append(dict(name="%s_%dx%d_jb%d_%s_fields_%s" % (cls, J, I, jb, "even levels" if ev else "interpolated", w), kind="fields", cls=cls, J=J, I=I, jb=jb, sy=w, ev=ev))
            r.append(dict(name="%s_%dx%d_jb%d_fluxes" % (cls, J, I, jb), kind="fluxes", cls=cls, J=J, I=I, jb=jb, ev=True))
        for J, I, K, jb in [(21, 10, 7, 4), (20, 9, 6, 2)] + ([(37, 16, 5, 6), (25, 18, 9, 0)] if t else []):   # ordinary sizes
            b = dict(cls=cls, J=J, I=I, K=K, jb=jb if cls == "NHN22" else 0)
            r.append(dict(b, name="%s_%dx%dx%d_jb%d_interpolated_fields_uv" % (cls, J, I, K, b["jb"]), kind="fields", sy="uv", ev=False))
            r.append(dict(b, name="%s_%dx%dx%d_jb%d_fields_t" % (cls, J, I, K, b["jb"]), kind="fields", sy="t", ev=True))
            if t or J == 21:
                r.append(dict(b, name="%s_%dx%dx%d_jb%d_fluxes" % (cls, J, I, K, b["jb"]), kind="fluxes", ev=True))
        for J, jb in [(5, 0), (7, 1), (6, 1), (7, 0)] + ([(9, 2), (8, 0), (11, 1)] if t else []):
            r.append(dict(name="%s_%dx3_jb%d_whole" % (cls, J, jb), kind="whole", cls=cls, J=J, I=3, jb=jb if cls == "NHN22" else 0, sy="uv", ev=True))
    return r


def two(h, c, sym, cells=None, **kw):
    k = dict(jb=c["jb"], poles=c["J"] % 2 == 1, evenly=c["ev"], nlev=None if c["ev"] else c.get("K", 4) + 1)
    o, d = qg.make(h, c["cls"], c["J"], c["I"], c.get("K", 4), sym=sym, cells=cells, **k, **kw)
    kw = {n: v for n, v in kw.items() if n not in ("amp", "tamp")}
    o2, d2 = qg.make(h, c["cls"], c["J"], c["I"], c.get("K", 4), nh=True, u=(d["u"], d["v"], d["t"]), **k, **kw)
    y = np.asarray(d["y"])
    h.eq("latitudes of a global run", o.ylat_ref_states, y)
    h.eq("latitudes of a northern run", o2.ylat_ref_states, y[y > -1e-9])
    h.eq("input latitudes", o2.ylat, y)
    h.eq("normalisation", o2.prefactor, o.prefactor)
    return o, d, o2, d2


def compare(h, d, A, B):
    y = np.asarray(d["y"])
    n = len(y)
    first = int(np.argmax(y > -1e-9))
    h.true("same outputs", sorted(A) == sorted(B))
    for m in B:
        if m == "stability":
            h.eq("stability", B[m][-1], A[m][-1])
            continue
        b = m.split()[-1]
        ax = pairs.AXES[b].index("l")
        if b in pairs.FIRST or b == "forcing":
            h.eq(m, B[m], A[m])
            continue
        h.eq("rows of " + m, B[m].shape[ax], n - first)
        rows = [j for j in range(first, n) if y[j] > (180.0 / n if n % 2 == 0 else 1e-9)]
        if b in BESIDE and not d["jb"]:
            rows = [j for j in rows if y[j] > (1.01 if n % 2 else 2.0) * 180.0 / (n - n % 2)]
        h.eq(m, np.take(B[m], [j - first for j in rows], ax), np.take(A[m], rows, ax))


def fields(h, c):
    qg.stub_ranges()
    o, d, o2, d2 = two(h, c, c["sy"])
    q = h.arr("q", np.shape(d["u"]), -1, 1)
    with pairs.Asked(h, d) as k:
        A, B = pairs.first_step(o), pairs.first_step(o2)
        A["forcing"], B["forcing"] = [pairs.arr(x.compute_ncforce_from_heating_rate(heating_rate=q)) for x in (o, o2)]
        o.compute_reference_states(return_named_tuple=False)
        o2.compute_reference_states(return_named_tuple=False)
    compare(h, d, A, B)
    h.eq("reference states requested", len(k.seen), 3)
    for m in k.seen[0]:
        h.eq("north: " + m, k.seen[2][m], k.seen[0][m])


def fluxes(h, c):
    qg.stub_ranges()
    o, d, o2, d2 = two(h, c, "uv")
    P = qg.plug_values(h, d)
    nc = h.arr("nc", np.shape(d["u"]), -1, 1)
    with qg.plugged(h, d, P):
        o.interpolate_fields(return_named_tuple=False)
        A = pairs.rest(o, nc)
    with qg.plugged(h, d2, {k: v for k, v in P.items() if not k.endswith("s")}):
        o2.interpolate_fields(return_named_tuple=False)
        B = pairs.rest(o2, nc)
    compare(h, d, A, B)


def whole(h, c):
    qg.stub_ranges()
    J = c["J"]
    where = (("u", (1, J // 2 + 1, 1)), ("v", (2, 1, 0)), ("u", (2, J - 2, 2)))
    kw = dict(maxit=3, tol=1e6, rjac=0.8) if c["cls"] == "NH18" else {}
    o, d, o2, d2 = two(h, c, c["sy"], cells=lambda n, ix: (n, ix) in where, amp=0.02, **kw)
    nc = h.generic("nc", np.shape(d["u"]), -1, 1)
    A = pairs.first_step(o)
    A.update(pairs.rest(o, h.mk(nc)))
    B = pairs.first_step(o2)
    B.update(pairs.rest(o2, h.mk(nc)))
    compare(h, d, A, B)


def run(h, c):
    globals()[c["kind"]](h, c)
