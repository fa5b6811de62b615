"""Every compiled kernel interpreted from gfortran's IR with its array-bounds tests compiled in, driven through the real
classes (PV, area analysis, both inversions, fluxes): every bounds test becomes an obligation, and each stage runs twice
with different arbitrary contents of unassigned storage, whose results the solver has to prove equal."""
import math
import os
import pickle
import sys
import traceback
import numpy as np
from checks import qg, C10

BOUNDS = "stages PV, area analysis + inversion, layerwise and barotropic fluxes, wave activity only; analysis grids of 5-9 latitudes (11 thorough), 3-5 longitudes, 4-6 levels (7 thorough), boundary index 0-3, 3-12 bins, both hemispheres, global and northern-only; winds, temperature, PV and reference states symbolic; area analysis with 1-3 symbolic cells through the classes and with every cell of one level symbolic at the kernel interface"
OUTSIDE = "larger grids; PV or vorticity constant on a level; f2py's own argument handling (emulated from the same signatures; outputs start as zeros)"
KERNELS = ["compute_qgpv", "compute_qgpv_direct_inv", "compute_reference_states", "compute_qref_and_fawa_first", "matrix_b4_inversion", "matrix_after_inversion", "upward_sweep", "compute_flux_dirinv", "compute_lwa_only_nhn22"]


def configs(tier):
    r = []
    deep = tier == "thorough"
    for cls in ("NH18", "NHN22"):
        for J, I, K, jb, nh in [(5, 3, 4, 0, 0), (7, 4, 4, 1, 1), (8, 3, 5, 0, 0)] + ([(9, 5, 6, 2, 0), (11, 3, 7, 3, 1)] if deep else []):
            r.append(dict(name="%s_pv_%dx%dx%d_nh%d" % (cls, J, I, K, nh), kind="pv", cls=cls, J=J, I=I, K=K, jb=jb, nh=nh))
        for J, I, K, jb, nh in [(5, 3, 4, 0, 0), (7, 4, 5, 1, 1), (9, 3, 5, 2, 0), (8, 3, 4, 0, 1)] + ([(9, 5, 6, 1, 0), (9, 3, 5, 2, 1), (11, 4, 5, 2, 0), (11, 3, 7, 3, 1)] if deep else []):
            r.append(dict(name="%s_flux_%dx%dx%d_nh%d_jb%d" % (cls, J, I, K, nh, jb), kind="flux", cls=cls, J=J, I=I, K=K, jb=jb if cls == "NHN22" else 0, nh=nh))
    for cls, J, I, K, n, jb in [("NH18", 5, 3, 4, None, 0), ("NH18", 7, 3, 4, 4, 0), ("NH18", 9, 3, 4, 12, 0), ("NHN22", 7, 4, 4, None, 0), ("NHN22", 7, 3, 5, None, 1), ("NHN22", 9, 3, 4, None, 2)] + ([("NH18", 11, 4, 5, 7, 0), ("NHN22", 11, 3, 6, None, 3), ("NHN22", 9, 4, 4, None, 1), ("NH18", 7, 5, 6, 9, 0)] if deep else []):
        fr = [("eq:mid", 0)]
        if J < 9 or deep:
            fr += [("sh:min", "pole:mid", 1)] if J == 5 or deep else []
            fr += [("sh:out", "nh:low", 0)] if jb == 0 and n != 12 else []
        if deep:
            fr += ([("nh2:mid", "nh:mid", 0)] if J != 9 else []) + ([("nh:max", 0)] if J < 9 else [])
        for free in fr:
            free, nh = free[:-1], free[-1]
            for what in ("value", "vorticity")[:1 + (cls == "NHN22" and free[0] in ("eq:mid", "sh:out"))]:
                r.append(dict(name="%s_states_%dx%dx%d_bins%s_jb%d_%s_%s" % (cls, J, I, K, n, jb, what, "+".join(free)), kind="states", cls=cls, J=J, I=I, K=K, n=n, jb=jb, nh=nh,
                              free=free, what=what, level=K - 1, eager=True))
    for mod in ("compute_reference_states", "compute_qref_and_fawa_first"):
        for J, I, n in [(5, 2, 3), (5, 3, 5), (7, 3, 4), (7, 4, 9), (9, 5, 6)] + ([(11, 4, 11), (13, 6, 7), (9, 5, 16)] if deep else []):
            for what in ("pv", "vort")[:1 + (mod != "compute_reference_states")]:
                r.append(dict(name="%s_%dx%d_bins%d_every_%s_cell" % (mod, J, I, n, what), kind="cells", mod=mod, J=J, I=I, n=n, what=what, K=3))
    return r


def guarded(h, stage):
    """(every index inside its array, [results with one kind of junk in unassigned storage, with another])"""
    s = h.pkg.session
    if h.sym:
        I = s.interp
        I.strict = True
        rs = []
        for p in "AB":
            I.poison = p
            rs.append(stage())
        ok = True
        for msg, g in I.oob:
            ok = h.ite(g, False, ok) if not isinstance(g, bool) else (ok and not g)
        return I.oob, rs
    rs = []
    good = True
    for p in ("zero", "nan"):
        a, b = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(a)
                n = os.open(os.devnull, os.O_WRONLY)
                os.dup2(n, 1)
                os.dup2(n, 2)
                s.checked = p
                try:
                    r = ("ok", [(k, np.array(v, dtype=float)) for k, v in stage()])
                except Exception as e:
                    r = ("raise", "%s: %s" % (type(e).__name__, e))
                with os.fdopen(b, "wb") as f:
                    f.write(pickle.dumps(r))
            finally:
                os._exit(0)
        os.close(b)
        with os.fdopen(a, "rb") as f:
            d = f.read()
        os.waitpid(pid, 0)
        if not d:
            good = False
            rs.append(None)
            continue
        st, r = pickle.loads(d)
        if st == "raise":
            raise RuntimeError(r)
        rs.append(r)
    return good, rs


def judge(h, stage):
    bad, rs = guarded(h, stage)
    if h.sym:
        from fv import sym
        c = True
        for _, g in bad:
            c = sym.land(c, sym.lnot(g))
        h.true("every index inside its array", c if not isinstance(c, bool) else bool(c))
        if any(g is True for _, g in bad):
            return
    else:
        h.true("every index inside its array", bad)
        if not bad:
            return
    for (n, x), (_, y) in zip(*rs):
        h.eq("%s does not depend on unassigned storage" % n, x, y)


def run(h, c):
    qg.stub_ranges()
    globals()["k_" + c["kind"]](h, c)


def k_pv(h, c):
    o, d = qg.make(h, c["cls"], c["J"], c["I"], c["K"], nh=c["nh"], jb=c["jb"], sym="uvt")

    def stage():
        m = h.pkg.oopinterface
        caught = []
        name = "compute_qgpv" if c["cls"] == "NH18" else "compute_qgpv_direct_inv"
        f = getattr(m, name)

        def kq(*a, **k):
            caught.append(f(*a, **k))
            return caught[-1]
        with qg.replaced(h, **{name: kq}):
            o.interpolate_fields(return_named_tuple=False)
        return [("PV", o.qgpv), ("PV as computed", caught[-1][0]), ("absolute vorticity", caught[-1][1])]
    judge(h, stage)


STATE = ("qref", "uref", "ptref")


def k_states(h, c):
    pv, av = C10.field(h, c, "pv"), C10.field(h, c, "av")
    extra = dict(raise_error_for_nonconvergence=False) if c["cls"] == "NH18" else {}
    if c["n"]:
        extra["npart"] = c["n"]
    o, d = qg.make(h, c["cls"], c["J"], c["I"], c["K"], nh=c["nh"], jb=c["jb"], sym="", **extra)
    if c["cls"] == "NH18":
        o.maxit = 2
        o.tol = 1e6
    sub = dict(compute_qgpv=lambda *a, **k: (h.mk(pv), h.mk(av)))
    sub["compute_qgpv_direct_inv"] = sub["compute_qgpv"]
    with qg.replaced(h, **sub):
        o.interpolate_fields(return_named_tuple=False)

    def stage():
        o.compute_reference_states(return_named_tuple=False)
        return [(n, getattr(o, n)) for n in STATE]
    judge(h, stage)


BARO = ("adv_flux_f1", "adv_flux_f2", "adv_flux_f3", "convergence_zonal_advective_flux", "divergence_eddy_momentum_flux",
        "meridional_heat_flux", "lwa_baro", "u_baro", "lwa", "ncforce_baro", "flux_vector_lambda_baro", "flux_vector_phi_baro")


def k_flux(h, c):
    o, d = qg.make(h, c["cls"], c["J"], c["I"], c["K"], nh=c["nh"], jb=c["jb"], sym="uv")
    P = qg.plug_values(h, d, hems="n" if c["nh"] else "ns")
    nc = h.arr("nc", (d["K"], d["J"], d["nlon"]), -1, 1)
    with qg.plugged(h, d, P):
        o.interpolate_fields(return_named_tuple=False)
        o.compute_reference_states(return_named_tuple=False)

    def stage():
        o.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=nc)
        r = [(n, np.array(getattr(o, n))) for n in BARO]
        st = o.layerwise_flux_terms_storage
        o.compute_layerwise_lwa_fluxes(ncforce=nc)
        r += [("layerwise " + n, np.array(st.fortran_to_python(getattr(st, n)))) for n in ("lwa", "ncforce", "ua1", "ua2", "ep1", "ep2", "ep3")]
        o.compute_lwa_only()
        return r + [("LWA alone: " + n, np.array(getattr(o, n))) for n in ("lwa_baro", "u_baro", "lwa")]
    judge(h, stage)


def k_cells(h, c):
    J, I, K, n = c["J"], c["I"], c["K"], c["n"]
    nd = J // 2 + 1
    g = lambda s: h.generic(s, (I, J, K), -1, 1).astype(object)
    f = dict(pv=g("pv"), vort=g("vort"), uu=g("uu"), pt=g("pt"))
    f[c["what"]][:, :, 1] = np.asarray(h.arr("x", (I, J), -1, 1), dtype=object)
    hi, lo = h.num("highest", 1.5, 2), h.num("lowest", -2, -1.5)
    f[c["what"]][0, 0, 1] = hi
    f[c["what"]][1, 0, 1] = lo
    f = {k: h.mk(x) for k, x in f.items()}
    dphi, dlam = math.pi / (J - 1), 2 * math.pi / I
    P = qg.PAR
    a, om, H, R, cp = [P[x] for x in ("planet_radius", "omega", "scale_height", "dry_gas_constant", "cp")]
    m = getattr(h.pkg.oopinterface, c["mod"])

    def stage():
        if c["mod"] == "compute_reference_states":
            r = m(pv=f["pv"], uu=f["uu"], pt=f["pt"], stat=np.linspace(1, 1.3, K), jd=nd, npart=n, maxits=1, a=a, om=om, dz=qg.DZ, eps=1.0, h=H, dphi=dphi, dlambda=dlam, r=R, cp=cp, rjac=0.9)
            return [("iterations", np.array([r[3]], dtype=object))]
        r = m(f["pv"], f["uu"], f["vort"], f["pt"], np.linspace(3, 4, K), nd, n, 0, nd, a, om, qg.DZ, H, dphi, dlam, R, cp)
        return [("top condition", r[5]), ("top matrix", r[6])]
    judge(h, stage)
