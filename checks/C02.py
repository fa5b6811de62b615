"""Signs of 2-D and layerwise wave activity for symbolic fields and reference states (the code's own arithmetic, proved
non-negative by the solver), and its vanishing for symbolic zonally symmetric states equal to their reference."""
import math
import numpy as np
from checks import qg, C03

BOUNDS = "2-D: grids up to 6x4 (thorough 8x5), symbolic field, reference profile (any order, ties included), force and length elements; wrappers and BarotropicField with prescribed or computed reference on up to 6x1 and 3x2; 3-D: 5-7 latitudes (9 thorough), 3-4 longitudes, 4-5 levels, boundary index 0-2, both classes, global and northern-only, from the layerwise, barotropic and wave-activity-only computations, PV and reference PV symbolic; ordinary size: 15 latitudes, 6 longitudes, 5 levels (one PV or reference value in 40 symbolic)"
OUTSIDE = "larger grids; that a zonally symmetric field is its own reference state under the discrete equivalent-latitude mapping (accuracy, C28)"
ASSUME = qg.ASSUME
RE = 6.378e6


def configs(tier):
    t = tier == "thorough"
    r = []
    for J, I in [(2, 1), (3, 2), (5, 3), (6, 4)] + ([(8, 5), (9, 3)] if t else []):
        r.append(dict(name="lwa_%dx%d" % (J, I), kind="lwa", J=J, I=I))
        r.append(dict(name="lwa_%dx%d_dmu" % (J, I), kind="lwa", J=J, I=I, dmu=True, batch=1))
        r.append(dict(name="lwa_%dx%d_symmetric" % (J, I), kind="flat", J=J, I=I))
    for J, I in [(6, 1), (4, 2)] + ([(6, 2), (8, 1)] if t else []):
        r.append(dict(name="wrappers_%dx%d" % (J, I), kind="given", J=J, I=I))
    for J, I, n in [(3, 2, 3), (4, 1, 3), (5, 1, 4)] + ([(4, 2, 3), (6, 1, 4)] if t else []):
        r.append(dict(name="reference_computed_%dx%d" % (J, I), kind="own", J=J, I=I, n=n, max_paths=20000))
    for cls in ("NH18", "NHN22"):
        for J, I, K, jb in [(5, 3, 4, 0), (5, 4, 5, 0), (7, 3, 4, 1), (15, 6, 5, 2)] + ([(7, 4, 5, 0), (9, 3, 4, 2)] if t else []):
            if cls == "NH18" and jb:
                continue
            for nh in (False, True):
                for sy in (False, True):
                    r.append(dict(name="%s_%dx%dx%d_jb%d_%s%s" % (cls, J, I, K, jb, "north" if nh else "global", "_symmetric" if sy else ""),
                                  kind="layers", batch=1 if not sy else 64, cls=cls, J=J, I=I, K=K, jb=jb, nh=nh, flat=sy, **(dict(few=40) if J > 9 else {})))
    return r


def parts(h, label, p, total, zero=False):
    for n, a in zip(("first", "second"), p):
        h.le("%s: %s part" % (label, n), 0.0 * np.zeros(np.shape(a)), a)
    h.le(label + ": total", np.zeros(np.shape(total)), total)
    h.eq(label + ": sum of the parts", total, p[0] + p[1])


def lwa(h, c):
    J, I = c["J"], c["I"]
    q = h.arr("q", (J, I), -2, 2)
    ref = h.arr("Q", (J,), -2, 2)
    dmu = h.arr("dmu", (J,), 0.1, 2) if c.get("dmu") else np.cos(np.linspace(-1.2, 1.3, J)) * 0.7
    nc = h.arr("nc", (J, I), -2, 2)
    p, _ = h.pkg.basis.lwa(I, J, q, ref, dmu, return_partitioned_lwa=True)
    p2, _ = h.pkg.basis.lwa(I, J, q, ref, dmu, return_partitioned_lwa=True, ncforce=nc)
    a, _ = h.pkg.basis.lwa(I, J, q, ref, dmu)
    a2, _ = h.pkg.basis.lwa(I, J, q, ref, dmu, ncforce=nc)
    parts(h, "lwa", p, a)
    h.eq("with force: parts", p2, p)
    h.eq("with force: total", a2, a)


def rising(h, n, name="Q"):
    """increasing (symbolic) profile"""
    v = [h.num(name + ".south", -2, 2)]
    for k in range(n - 1):
        v.append(v[-1] + h.num("%s.step%d" % (name, k), 0.01, 1.0))
    return v


def flat(h, c):
    J, I = c["J"], c["I"]
    v = rising(h, J)
    ref = h.mk(np.array(v, dtype=object))
    q = h.mk(np.array([[x] * I for x in v], dtype=object))
    dmu = h.arr("dmu", (J,), 0.1, 2)
    p, _ = h.pkg.basis.lwa(I, J, q, ref, dmu, return_partitioned_lwa=True)
    a, _ = h.pkg.basis.lwa(I, J, q, ref, dmu)
    h.eq("parts", p, np.zeros((2, J, I)), tol=0.0)
    h.eq("total", a, np.zeros((J, I)), tol=0.0)
    W = h.pkg.wrapper
    y = np.linspace(-90, 90, J)
    area = np.ones((J, I))
    h.eq("barotropic wrapper", W.barotropic_input_qref_to_compute_lwa(y, ref, q, area, dmu), np.zeros((J, I)), tol=0.0)
    if J > 3:
        h.eq("hemispheric wrapper", W.qgpv_input_qref_to_compute_lwa(y, ref, q, area, dmu), np.zeros((J, I)), tol=0.0)


def given(h, c):
    J, I = c["J"], c["I"]
    q = h.arr("q", (J, I), -2, 2)
    ref = h.arr("Q", (J,), -2, 2)
    y = np.linspace(-90, 90, J)
    dmu = RE * np.abs(np.cos(np.deg2rad(y))) * math.pi / (J - 1) * 1e-6
    area = np.ones((J, I))
    W = h.pkg.wrapper
    h.le("barotropic, given reference", np.zeros((J, I)), W.barotropic_input_qref_to_compute_lwa(y, ref, q, area, dmu))
    for n in (None, J // 2, J // 2 - 1):
        h.le("hemispheric, given reference %s" % n, np.zeros((J, I)), W.qgpv_input_qref_to_compute_lwa(y, ref, q, area, dmu, nlat_s=n))


def own(h, c):
    J, I = c["J"], c["I"]
    y = np.linspace(-90, 90, J)
    a = 2.3
    area = C03.areas(h, J, I, "generic", a)
    q, m, D = C03.field(h, "q", J, I, J * I - 2, 1 if J * I > 3 else 0, False)
    dphi = np.full(J, math.pi / (J - 1))
    dmu = a * np.abs(np.cos(np.deg2rad(y))) * dphi
    with h.eager("basis.eqvlat_fawa", "basis.eqvlat_vgrad"):
        _, p = h.pkg.wrapper.barotropic_eqlat_lwa(y, q, area, dmu, c["n"], planet_radius=a, return_partitioned_lwa=True)
        _, t = h.pkg.wrapper.barotropic_eqlat_lwa(y, q, area, dmu, c["n"], planet_radius=a)
        parts(h, "wrapper", p, t)
        B = h.pkg.barotropic_field.BarotropicField
        k = dict(area=area, dphi=dphi, n_partitions=c["n"], planet_radius=a)
        x = np.arange(I) * 360.0 / I
        parts(h, "BarotropicField", B(x, y, pv_field=q, return_partitioned_lwa=True, **k).lwa, B(x, y, pv_field=q, **k).lwa)


def layers(h, c):
    qg.stub_ranges()
    nh = c["nh"]
    o, d = qg.make(h, c["cls"], c["J"], c["I"], c["K"], nh=nh, jb=c["jb"], sym="")
    P = qg.plug_values(h, d, hems="n" if nh else "ns")
    if c["flat"]:
        nd, K, J = d["nd"], d["K"], d["J"]
        eq = nd - 1
        om = qg.PAR["omega"]
        pv = np.zeros((d["nlon"], J, K), dtype=object)
        for e, s in (("n", 1), ("s", -1)):
            if "q" + e not in P:
                for m in range(1, nd):      # the unanalysed hemisphere
                    for k in range(K):
                        pv[:, eq + s * m, k] = -1.0
                continue
            q = np.zeros((nd, K), dtype=object)
            for k in range(K):
                v = 0.0
                for m in range(1, nd):
                    v = v + h.num("q%s step%d,%d" % (e, m, k), 0.01, 1.0)
                    pv[:, eq + s * m, k] = v * s
                    f = (2 * om if d["cls"] == "NH18" else 1.0) * math.sin(math.radians(d["ya"][eq + m]))
                    q[m, k] = v / f
            P["q" + e] = h.mk(q)
        P["pv"] = h.mk(pv)
    with qg.plugged(h, d, P):
        o.interpolate_fields(return_named_tuple=False)
        o.compute_reference_states(return_named_tuple=False)
        for step in ("compute_lwa_only", "compute_layerwise_lwa_fluxes", "compute_lwa_and_barotropic_fluxes"):
            getattr(o, step)()
            st = o.layerwise_flux_terms_storage
            a = np.asarray(o.lwa, dtype=object)
            if step != "compute_lwa_and_barotropic_fluxes":
                p = [np.asarray(st.fortran_to_python(getattr(st, n)), dtype=object) for n in ("astar1", "astar2")]
                if c["flat"]:
                    h.eq(step + ": parts", p, np.zeros((2,) + a.shape), tol=1e-9)
                else:
                    parts(h, step, p, a)
            if c["flat"]:
                h.eq(step + ": wave activity", a, np.zeros(a.shape), tol=1e-9)
            else:
                h.le(step + ": wave activity", np.zeros(a.shape), a)
            if step != "compute_layerwise_lwa_fluxes":
                b = o.lwa_baro
                if c["flat"]:
                    h.eq(step + ": barotropic wave activity", b, np.zeros(np.shape(b)), tol=1e-9)
                else:
                    h.le(step + ": barotropic wave activity", np.zeros(np.shape(b)), b)


def run(h, c):
    globals()[c["kind"]](h, c)
