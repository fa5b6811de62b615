"""Two runs of the same code on symbolic fields, the second on the fields shifted in longitude: 3-D classes (stage by stage
with symbolic intermediate results, and end to end), barotropic-field object, 2-D routines, wrappers and operators."""
import numpy as np
from checks import qg, pairs

BOUNDS = "every shift of 3-5 (thorough 7) longitudes (3-D in the quick run: by one); 3-D grids of 5-7 latitudes (thorough 11) and 4 levels (even: 4-6, thorough 8), both classes, global and northern-only, boundary index 0-1; stages: interpolation and PV (winds or temperature symbolic), what the reference states are computed from, fluxes for symbolic PV and reference states; end to end with single symbolic cells of the fields; 2-D routines on 3-5 x 3-6 symbolic fields; ordinary size: 20-21 latitudes, 9-10 longitudes, 6-7 levels, boundary index 2-4 (thorough 37x16x5, 25x18x9), all symbolic"
OUTSIDE = "larger grids; end-to-end runs in which the symbolic cells change the area ranking beyond the stated ranges"
ASSUME = qg.ASSUME


def configs(tier):
    r = []
    t = tier == "thorough"
    for cls in ("NH18", "NHN22"):
        for J, I, jb in [(5, 3, 0), (7, 4, 1), (4, 3, 0), (7, 5, 0), (6, 4, 1)] + ([(9, 3, 2), (5, 7, 0), (11, 4, 1), (8, 6, 0)] if t else []):
            if cls == "NH18" and jb:
                jb = 0
            for nh in (0, 1):
                for s in ([1] if not t else range(1, I)):
                    for w in ("uv", "t"):
                        r.append(dict(name="%s_%dx%d_jb%d_nh%d_by%d_fields_%s" % (cls, J, I, jb, nh, s, w), kind="fields", cls=cls, J=J, I=I, jb=jb, nh=nh, s=s, sy=w))
                    r.append(dict(name="%s_%dx%d_jb%d_nh%d_by%d_fluxes" % (cls, J, I, jb, nh, s), kind="fluxes", cls=cls, J=J, I=I, jb=jb, nh=nh, s=s))
        for J, I, K, jb, s in [(21, 10, 7, 4, 3), (20, 9, 6, 2, 7)] + ([(37, 16, 5, 6, 5), (25, 18, 9, 0, 11)] if t else []):   # ordinary sizes
            for nh in (0, 1):
                b = dict(cls=cls, J=J, I=I, K=K, jb=jb if cls == "NHN22" else 0, nh=nh, s=s)
                n = "%s_%dx%dx%d_jb%d_nh%d_by%d" % (cls, J, I, K, b["jb"], nh, s)
                for w in ("uv", "t"):
                    r.append(dict(b, name=n + "_fields_" + w, kind="fields", sy=w))
                if t or (J == 21) != bool(nh):
                    r.append(dict(b, name=n + "_fluxes", kind="fluxes"))
        for nh in (0, 1):
            for s in (1, 2):
                r.append(dict(name="%s_5x3_nh%d_by%d_whole" % (cls, nh, s), kind="whole", cls=cls, J=5, I=3, jb=0, nh=nh, s=s))
    for J, I in [(3, 3), (4, 4), (4, 5)] + ([(5, 4), (3, 6)] if t else []):
        for s in range(1, I) if t else (1, I - 1):
            r.append(dict(name="operators_%dx%d_by%d" % (J, I, s), kind="ops", J=J, I=I, s=s))
            r.append(dict(name="lwa_%dx%d_by%d" % (J, I, s), kind="lwa", J=J, I=I, s=s))
    for J, I in [(4, 3), (5, 3)]:
        for f in ("basis", "object", "wrappers", "more wrappers"):
            r.append(dict(name="%s_%dx%d" % (f, J, I), kind="eqv", f=f, J=J, I=I, s=1, eager=True))
    return r


def roll(h, x, s):
    return h.mk(np.roll(np.asarray(x, dtype=object), s, axis=-1))


def froll(h, x, s):
    return h.mk(np.roll(np.asarray(x, dtype=object), s, axis=0))


def run(h, c):
    globals()[c["kind"]](h, c)


def compare(h, c, A, B, names=None):
    for n in names or A:
        if n == "stability":
            h.eq("number of profiles", len(A[n]), len(B[n]))
            for i, (x, y) in enumerate(zip(A[n], B[n])):
                h.eq("stability.%d" % i, y, x)
            continue
        a = pairs.AXES[n.split()[-1]]
        h.eq(n, B[n], np.roll(A[n], c["s"], axis=-1) if a.endswith("i") else A[n])


def two(h, c, sym, cells=None, **kw):
    o, d = qg.make(h, c["cls"], c["J"], c["I"], c.get("K", 4), nh=c["nh"], jb=c["jb"], sym=sym, poles=c["J"] % 2 == 1, cells=cells, **kw)
    kw = {k: v for k, v in kw.items() if k not in ("amp", "tamp")}
    o2, d2 = qg.make(h, c["cls"], c["J"], c["I"], c.get("K", 4), nh=c["nh"], jb=c["jb"], poles=c["J"] % 2 == 1, u=[roll(h, d[n], c["s"]) for n in "uvt"], **kw)
    return o, d, o2, d2


def fields(h, c):
    qg.stub_ranges()
    o, d, o2, d2 = two(h, c, c["sy"])
    q = h.arr("q", np.shape(d["u"]), -1, 1)
    with pairs.Asked(h, d) as k:
        A, B = pairs.first_step(o), pairs.first_step(o2)
        A["forcing"], B["forcing"] = [pairs.arr(x.compute_ncforce_from_heating_rate(heating_rate=y)) for x, y in ((o, q), (o2, roll(h, q, c["s"])))]
        o.compute_reference_states(return_named_tuple=False)
        n = len(k.seen)
        o2.compute_reference_states(return_named_tuple=False)
    compare(h, c, A, B)
    h.eq("reference states requested", len(k.seen), 2 * n)
    for i, (x, y) in enumerate(zip(k.seen[:n], k.seen[n:])):
        for m in x:
            h.eq("request %d %s" % (i, m), y[m], np.roll(x[m], c["s"], axis=0) if x[m].ndim == 3 else x[m])


def fluxes(h, c):
    qg.stub_ranges()
    o, d, o2, d2 = two(h, c, "uv")
    P = qg.plug_values(h, d, hems="n" if c["nh"] else "ns")
    P2 = dict(P, pv=froll(h, P["pv"], c["s"]), avort=froll(h, P["avort"], c["s"]))
    nc = h.arr("nc", np.shape(d["u"]), -1, 1)
    with qg.plugged(h, d, P):
        o.interpolate_fields(return_named_tuple=False)
        A = pairs.rest(o, nc)
    with qg.plugged(h, d2, P2):
        o2.interpolate_fields(return_named_tuple=False)
        B = pairs.rest(o2, roll(h, nc, c["s"]))
    compare(h, c, A, B)


def whole(h, c):
    qg.stub_ranges()
    spot = lambda n, ix: (n, ix) in (("u", (1, 3, 1)), ("v", (2, 1, 0)), ("u", (2, 2, 2)))
    kw = dict(maxit=3, tol=1e6, rjac=0.8) if c["cls"] == "NH18" else {}
    o, d, o2, d2 = two(h, c, "uv", cells=spot, amp=0.02, **kw)
    nc = h.generic("nc", np.shape(d["u"]), -1, 1)
    A = pairs.first_step(o)
    A.update(pairs.rest(o, h.mk(nc)))
    B = pairs.first_step(o2)
    B.update(pairs.rest(o2, roll(h, nc, c["s"])))
    compare(h, c, A, B)


# ------------------------------------------------------------------ 2-D
def same(h, label, x, y, s):
    """y is x shifted where it depends on longitude"""
    if isinstance(x, dict):
        h.true(label + " outputs", sorted(x) == sorted(y))
        for k in x:
            same(h, "%s %s" % (label, k), x[k], y[k], s)
        return
    if isinstance(x, tuple):
        for i, (p, q) in enumerate(zip(x, y)):
            same(h, "%s.%d" % (label, i), p, q, s)
        return
    if x is None:
        h.true(label + " absent", y is None)
        return
    p = np.asarray(x, dtype=object)
    h.eq(label, y, np.roll(p, s, axis=-1) if p.ndim > 1 else p)


def ops(h, c):
    J, I, s = c["J"], c["I"], c["s"]
    ut = h.pkg.utilities
    clat = np.cos(np.linspace(-1.2, 1.3, J))
    clat[0] = 1e-12
    dl, dp = 2 * np.pi / I, 0.3
    f, g = h.arr("f", (J, I), -1, 1), h.arr("g", (J, I), -1, 1)
    t3, a3 = [h.arr(n, (3, J, I), -0.1, 0.1, f=lambda ix, x: x + 3 + ix[0]) for n in ("t", "a")]
    lat = np.linspace(-85, 85, J)
    z = np.array([0.0, 0.5, 1.1])
    t0, st = np.array([3.0, 3.9, 5.1]), np.array([0.9, 1.1, 1.0])
    both = lambda label, fn, *x: same(h, label, fn(*x), fn(*[roll(h, a, s) for a in x]), s)
    both("zonal_convergence", lambda x: ut.zonal_convergence(x, clat, dl, planet_radius=1.7), f)
    both("meridional_divergence", lambda x: ut.meridional_divergence(x, clat, dp, planet_radius=1.7), f)
    both("curl_2d", lambda x, y: ut.curl_2d(x, y, clat, dl, dp, planet_radius=1.7), f, g)
    both("static_stability", lambda x: ut.static_stability(z, np.abs(np.cos(np.radians(lat))), x), t3)
    both("compute_qgpv_givenvort", lambda x, y: ut.compute_qgpv_givenvort(0.8, J, I, 3, z, lat, x, y, t0, t0 * 0.9, st, st * 1.1, scale_height=1.3), a3, t3)
    if J % 2:
        both("z_derivative_of_prod", lambda x: ut.z_derivative_of_prod(st, st * 1.1, 3, J // 2 + 1, 0.5, np.exp(-z), x, np.ones((3, J)) * lat), t3)


def lwa(h, c):
    J, I, s = c["J"], c["I"], c["s"]
    b, W = h.pkg.basis, h.pkg.wrapper
    f, e = h.arr("f", (J, I), -1, 1), h.arr("e", (J, I), -1, 1)
    q = h.arr("q", (J,), -1, 1)
    dmu = np.linspace(0.3, 0.9, J)
    area = np.ones((J, I))
    y = np.linspace(-80, 80, J)
    for part in (False, True):
        fn = lambda f, e: b.lwa(I, J, f, q, dmu, return_partitioned_lwa=part, ncforce=e)
        same(h, "lwa%s" % (" partitioned" if part else ""), fn(f, e), fn(roll(h, f, s), roll(h, e, s)), s)
    for fn in (W.barotropic_input_qref_to_compute_lwa, W.qgpv_input_qref_to_compute_lwa):
        same(h, "given reference", fn(y, q, f, area, dmu), fn(y, q, roll(h, f, s), area, dmu), s)


def eqv(h, c):
    J, I, s = c["J"], c["I"], c["s"]
    b, W = h.pkg.basis, h.pkg.wrapper
    lat = np.linspace(-86, 86, J)
    a = h.generic("f", (J, I), -1, 1).astype(object)
    a[0, 1], a[J - 1, 0] = h.num("x", -0.9, 0.9), h.num("y", -0.9, 0.9)
    area = np.abs(np.cos(np.radians(lat)))[:, None] * np.ones((J, I))
    area = area * 4 * np.pi / area.sum()
    f, e = h.mk(a), h.arr("e", (J, I), -1, 1)
    F, E = roll(h, f, s), roll(h, e, s)
    dmu = np.linspace(0.3, 0.9, J)
    if c["f"] == "basis":
        for out in (False, True):
            same(h, "profile", b.eqvlat_fawa(lat, f, area, 5, planet_radius=1.0, output_fawa=out), b.eqvlat_fawa(lat, F, area, 5, planet_radius=1.0, output_fawa=out), s)
        same(h, "bracket", b.eqvlat_vgrad(lat, f, area, 5, planet_radius=1.0, vgrad=e), b.eqvlat_vgrad(lat, F, area, 5, planet_radius=1.0, vgrad=E), s)
    elif c["f"] == "object":
        B = h.pkg.barotropic_field.BarotropicField
        for part in (False, True):
            o, o2 = [B(np.arange(I) * 1.0, lat, pv_field=v, area=area, dphi=np.full(J, 0.5), n_partitions=5, planet_radius=1.0, return_partitioned_lwa=part) for v in (f, F)]
            same(h, "object profile", o.equivalent_latitudes, o2.equivalent_latitudes, s)
            same(h, "object lwa", o.lwa, o2.lwa, s)
    elif c["f"] == "wrappers":
        fn = lambda f, e: W.qgpv_eqlat_lwa_options(lat, f, area, dmu, vgrad=e, ncforce=e, planet_radius=1.0)
        same(h, "options", fn(f, e), fn(F, E), s)
    else:
        for n, fn in (("barotropic", lambda f: W.barotropic_eqlat_lwa(lat, f, area, dmu, 5, planet_radius=1.0)), ("qgpv", lambda f: W.qgpv_eqlat_lwa(lat, f, area, dmu, planet_radius=1.0)),
                      ("theta", lambda f: W.theta_lwa(lat, f, area, dmu, planet_radius=1.0)), ("eqvlat", lambda f: W.eqvlat_hemispheric(lat, f, area, planet_radius=1.0))):
            same(h, n, fn(f), fn(F), s)
