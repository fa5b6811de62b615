"""Two runs of the same class on symbolic fields, the second on the fields mirrored across the equator: stage by stage with
symbolic intermediate results, and end to end with the real reference-state kernels."""
import numpy as np
from checks import qg, pairs

BOUNDS = "grids of 5-9 latitudes (13 thorough; even: 4-6, 10 thorough), 3-5 longitudes (7 thorough), 4 levels, boundary index 0-2, both classes, global runs; stages: interpolation and PV (winds or temperature symbolic) with the arguments the reference states are computed from, fluxes for symbolic PV and reference states; end to end with single symbolic cells of the fields; ordinary size: 20-21 latitudes, 9-10 longitudes, 6-7 levels, boundary index 2-4 (thorough 37x16x5, 25x18x9), all symbolic"
OUTSIDE = "the equator row, the momentum-flux terms next to it when the analysis reaches the equator (southern analysis in a global run) and, on even grids, rows interpolated from it; larger grids"
ASSUME = qg.ASSUME
MINUS = {"qgpv", "interpolated_v", "qref", "flux_vector_phi_baro", "forcing"}
SWAP = {"ep2": "ep3", "ep3": "ep2"}                      # exchanged, with the sign reversed
BESIDE = {"ep2", "ep3", "divergence_eddy_momentum_flux"}     # use the neighbouring rows' reference wind


def configs(tier):
    r = []
    t = tier == "thorough"
    for cls in ("NH18", "NHN22"):
        for J, I, jb in [(5, 3, 0), (7, 4, 1), (4, 3, 0), (6, 3, 1), (7, 5, 0), (9, 3, 2)] + ([(9, 4, 1), (8, 3, 0), (11, 3, 2), (10, 3, 1), (13, 4, 3), (5, 7, 0), (9, 6, 0)] if t else []):
            if cls == "NH18":
                jb = 0
            for ev in (True, False):
                for w in ("uv", "t"):
                    r.append(dict(name="%s_%dx%d_jb%d_%s_fields_%s" % (cls, J, I, jb, "even levels" if ev else "interpolated", w), kind="fields", cls=cls, J=J, I=I, jb=jb, sy=w, ev=ev))
            r.append(dict(name="%s_%dx%d_jb%d_fluxes" % (cls, J, I, jb), kind="fluxes", cls=cls, J=J, I=I, jb=jb, ev=True))
        for J, I, K, jb in [(21, 10, 7, 4), (20, 9, 6, 2)] + ([(37, 16, 5, 6), (25, 18, 9, 0)] if t else []):   # ordinary sizes
            b = dict(cls=cls, J=J, I=I, K=K, jb=jb if cls == "NHN22" else 0)
            r.append(dict(b, name="%s_%dx%dx%d_jb%d_interpolated_fields_uv" % (cls, J, I, K, b["jb"]), kind="fields", sy="uv", ev=False))
            r.append(dict(b, name="%s_%dx%dx%d_jb%d_fields_t" % (cls, J, I, K, b["jb"]), kind="fields", sy="t", ev=True))
            if t or J == 21:
                r.append(dict(b, name="%s_%dx%dx%d_jb%d_fluxes" % (cls, J, I, K, b["jb"]), kind="fluxes", ev=True))
        for J, jb in [(5, 0), (7, 1), (7, 0)] + ([(9, 2), (9, 0), (11, 1)] if t else []):
            r.append(dict(name="%s_%dx3_jb%d_whole" % (cls, J, jb), kind="whole", cls=cls, J=J, I=3, jb=jb if cls == "NHN22" else 0, sy="uv", ev=True))
    return r


def flip(x, axis):
    return np.flip(np.asarray(x, dtype=object), axis)


def mirrored(h, d):
    return [h.mk(flip(d["u"], 1)), h.mk(-flip(d["v"], 1)), h.mk(flip(d["t"], 1))]


def two(h, c, sym, cells=None, **kw):
    k = dict(jb=c["jb"], poles=c["J"] % 2 == 1, evenly=c["ev"], nlev=None if c["ev"] else c.get("K", 4) + 1)
    o, d = qg.make(h, c["cls"], c["J"], c["I"], c.get("K", 4), sym=sym, cells=cells, **k, **kw)
    kw = {n: v for n, v in kw.items() if n not in ("amp", "tamp")}
    o2, d2 = qg.make(h, c["cls"], c["J"], c["I"], c.get("K", 4), u=mirrored(h, d), **k, **kw)
    return o, d, o2, d2


def compare(h, d, A, B):
    y = np.asarray(d["y"])
    n = len(y)
    clear = [j for j in range(n) if abs(y[j]) > (180.0 / n if n % 2 == 0 else 1e-9)]
    for m in B:
        if m == "stability":
            h.eq("number of profiles", len(A[m]), len(B[m]))
            for i, (p, q) in enumerate(zip(A[m][::-1], B[m])):
                h.eq("stability.%d" % i, q, p)
            continue
        b = m.split()[-1]
        ax = pairs.AXES[b].index("l")
        a = flip(A[m.replace(b, SWAP.get(b, b))], ax)
        s = -1.0 if b in MINUS or b in SWAP else 1.0
        rows = clear if m not in pairs.FIRST and m != "forcing" or b == "qgpv" else range(n)
        if b in BESIDE and not d["jb"]:
            rows = [j for j in rows if abs(y[j]) > (1.01 if n % 2 else 2.0) * 180.0 / (n - n % 2)]
        h.eq(m, np.take(np.asarray(B[m], dtype=object), rows, ax), np.take(a * s, rows, ax))


def fields(h, c):
    qg.stub_ranges()
    o, d, o2, d2 = two(h, c, c["sy"])
    q = h.arr("q", np.shape(d["u"]), -1, 1)
    with pairs.Asked(h, d) as k:
        A, B = pairs.first_step(o), pairs.first_step(o2)
        A["forcing"], B["forcing"] = [pairs.arr(x.compute_ncforce_from_heating_rate(heating_rate=y)) for x, y in ((o, q), (o2, h.mk(flip(q, 1))))]
        o.compute_reference_states(return_named_tuple=False)
        o2.compute_reference_states(return_named_tuple=False)
    compare(h, d, A, B)
    h.eq("reference states requested", len(k.seen), 4)
    N, S, N2, S2 = k.seen
    # the analysis of one hemisphere uses the global PV; its equator row is f = 0 there and excluded in the comparison
    rows = [j for j in range(d["J"]) if j != d["nd"] - 1]
    for label, x, y in (("north from south", S, N2), ("south from north", N, S2)):
        for m in x:
            p, q = x[m], y[m]
            h.eq("%s: %s" % (label, m), q[:, rows] if q.ndim == 3 else q, p[:, rows] if p.ndim == 3 else p)


def fluxes(h, c):
    qg.stub_ranges()
    o, d, o2, d2 = two(h, c, "uv")
    P = qg.plug_values(h, d)
    P2 = {"pv": h.mk(-flip(P["pv"], 1)), "avort": h.mk(-flip(P["avort"], 1))}
    for x in "qut":
        P2[x + "n"], P2[x + "s"] = P[x + "s"], P[x + "n"]
    nc = h.arr("nc", np.shape(d["u"]), -1, 1)
    with qg.plugged(h, d, P):
        o.interpolate_fields(return_named_tuple=False)
        A = pairs.rest(o, nc)
    with qg.plugged(h, d2, P2):
        o2.interpolate_fields(return_named_tuple=False)
        B = pairs.rest(o2, h.mk(-flip(nc, 1)))
    compare(h, d, A, B)


def whole(h, c):
    qg.stub_ranges()
    J = c["J"]
    where = (("u", (1, J // 2 + 1, 1)), ("v", (2, 1, 0)), ("u", (2, J - 2, 2)), ("t", (1, 1, 1)), ("t", (2, J - 2, 0)))
    kw = dict(maxit=3, tol=1e6, rjac=0.8) if c["cls"] == "NH18" else {}
    o, d, o2, d2 = two(h, c, c["sy"], cells=lambda n, ix: (n, ix) in where, amp=0.02, tamp=0.002, **kw)
    nc = h.generic("nc", np.shape(d["u"]), -1, 1)
    A = pairs.first_step(o)
    A.update(pairs.rest(o, h.mk(nc)))
    B = pairs.first_step(o2)
    B.update(pairs.rest(o2, h.mk(-flip(nc, 1))))
    compare(h, d, A, B)


def run(h, c):
    globals()[c["kind"]](h, c)
